import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC module override for spec/TraceIO.tla: reads recorded sessions (one JSON array of
 * events per line) and writes behaviours of the model as JSON.
 *
 * JSON -> TLA+: objects are records, arrays are sequences, integers are integers, strings
 * are strings, except that a string starting with '#' is a double written so that parsing
 * gives it back exactly; it becomes the rational it denotes (see Rational.tla).
 */
public class TraceIO {
    static Value[][] sessions;

    static synchronized void load() {
        if (sessions != null) return;
        try {
            String f = System.getProperty("trace.file");
            List<String> lines = f == null ? new ArrayList<>() : Files.readAllLines(Paths.get(f), StandardCharsets.UTF_8);
            Value[][] out = new Value[lines.size()][];
            for (int i = 0; i < out.length; i++) {
                Value v = new P(lines.get(i)).value();
                v.deepNormalize();
                out[i] = ((TupleValue) v).elems;
            }
            sessions = out;
        } catch (IOException e) { throw new RuntimeException(e); }
    }

    public static Value SessionCount() { load(); return IntValue.gen(sessions.length); }
    public static Value SessionLen(Value i) { load(); return IntValue.gen(sessions[((IntValue) i).val - 1].length); }
    public static Value EventAt(Value i, Value j) { load(); return sessions[((IntValue) i).val - 1][((IntValue) j).val - 1]; }

    static BufferedWriter w;
    static final Set<String> seen = new HashSet<>();
    /** Appends v to the file given by -Demit.file, each different value once; always TRUE. */
    public static Value Emit(Value v) {
        String f = System.getProperty("emit.file");
        if (f == null) return BoolValue.ValTrue;
        StringBuilder b = new StringBuilder();
        json(v, b);
        String s = b.toString();
        synchronized (seen) {
            try {
                if (!seen.add(s)) return BoolValue.ValTrue;
                if (w == null) {
                    w = new BufferedWriter(new FileWriter(f));
                    Runtime.getRuntime().addShutdownHook(new Thread(() -> { try { w.close(); } catch (IOException e) { } }));
                }
                w.write(s); w.write('\n');
            } catch (IOException e) { throw new RuntimeException(e); }
        }
        return BoolValue.ValTrue;
    }

    static void json(Value v, StringBuilder b) {
        if (v instanceof IntValue) b.append(((IntValue) v).val);
        else if (v instanceof StringValue) b.append('"').append(((StringValue) v).val.toString()).append('"');
        else if (v instanceof BoolValue) b.append(((BoolValue) v).val);
        else if (v.toTuple() != null) {
            Value[] e = ((TupleValue) v.toTuple()).elems;
            b.append('[');
            for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(e[i], b); }
            b.append(']');
        } else if (v.toRcd() != null) {
            RecordValue r = (RecordValue) v.toRcd();
            b.append('{');
            for (int i = 0; i < r.names.length; i++) {
                if (i > 0) b.append(',');
                b.append('"').append(r.names[i].toString()).append("\":");
                json(r.values[i], b);
            }
            b.append('}');
        } else throw new RuntimeException("Emit: cannot write " + v);
    }

    static Value number(String s) {
        if (s.equals("NaN")) return special(0);
        if (s.equals("inf")) return special(1);
        if (s.equals("-inf")) return special(-1);
        double x = Double.parseDouble(s);
        if (x == 0) return Rational.ZERO;
        long bits = Double.doubleToLongBits(x);
        int e = (int) ((bits >> 52) & 0x7ff);
        long m = bits & 0xfffffffffffffL;
        if (e == 0) e = 1; else m |= 1L << 52;
        if (bits < 0) m = -m;
        e -= 1075;
        BigInteger b = BigInteger.valueOf(m);
        return e >= 0 ? Rational.make(b.shiftLeft(e), BigInteger.ONE) : Rational.make(b, BigInteger.ONE.shiftLeft(-e));
    }
    static Value special(int n) { return new TupleValue(new Value[] { IntValue.gen(n), IntValue.gen(0) }); }

    static final class P {
        final String s; int i = 0;
        P(String s) { this.s = s; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value value() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                i++;
                ArrayList<UniqueString> n = new ArrayList<>(); ArrayList<Value> v = new ArrayList<>();
                ws();
                if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], true); }
                while (true) {
                    ws();
                    n.add(UniqueString.uniqueStringOf(str()));
                    ws(); i++;                                  // ':'
                    v.add(value());
                    ws();
                    if (s.charAt(i++) == '}') break;
                }
                return new RecordValue(n.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
            }
            if (c == '[') {
                i++;
                ArrayList<Value> v = new ArrayList<>();
                ws();
                if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
                while (true) {
                    v.add(value());
                    ws();
                    if (s.charAt(i++) == ']') break;
                }
                return new TupleValue(v.toArray(new Value[0]));
            }
            if (c == '"') {
                String t = str();
                return t.startsWith("#") ? number(t.substring(1)) : new StringValue(t);
            }
            if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
            if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
            int j = i;
            while (i < s.length() && (s.charAt(i) == '-' || Character.isDigit(s.charAt(i)))) i++;
            return IntValue.gen(Integer.parseInt(s.substring(j, i)));
        }
        String str() {
            StringBuilder b = new StringBuilder();
            i++;
            while (s.charAt(i) != '"') {
                if (s.charAt(i) == '\\') i++;
                b.append(s.charAt(i++));
            }
            i++;
            return b.toString();
        }
    }
}
