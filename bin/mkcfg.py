import os
V=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'spec/mc')
INV="Exported AllWellFormed AllCoherent AllDenote Affine InsertRight Multiplicities SplitRight ReverseRight DerivRight MergeRight EditRight RebuildRight RangeRight".split()
def mc(name,plan,degs,inner,den,long):
    t=f"\\* MODULE MCCurves\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Plan = \"{plan}\"\nCONSTANT Degrees = {{{degs}}}\nCONSTANT InnerMax = {inner}\nCONSTANT Den = {den}\nCONSTANT Long = {'TRUE' if long else 'FALSE'}\n"
    t+="".join(f"INVARIANT {i}\n" for i in INV)
    open(f"{V}/{name}.cfg","w").write(t)
mc("C01.curves.quick","evaluate","1,2,3",2,4,False)
mc("C02.curves.quick","evaluate","1,2,3",2,4,False)
mc("C04.curves.quick","range","0,1,2,3",1,4,False)
mc("C05.curves.quick","insert","1,2,3",1,4,False)
mc("C06.curves.quick","limit","1,2",1,4,False)
mc("C07.curves.quick","history","1,2",1,4,False)
mc("C08.curves.quick","split","1,2,3",1,4,False)
mc("C09.curves.quick","reverse","1,2,3",1,4,False)
mc("C10.curves.quick","merge","1,2,3",1,4,False)
mc("C11.curves.quick","merge","1,2,3",1,4,False)
mc("C10.corner.quick","merge","1,2",3,2,False)
mc("C11.corner.quick","merge","2",3,2,False)
mc("C12.curves.quick","refuse","1,2,3,4",1,4,False)
mc("C13.curves.quick","attach","1,2",1,4,False)
mc("C22.curves.quick","deriv","1,2,3",1,4,False)
mc("C22.part.quick","part","1,2,3",1,4,False)
mc("C24.curves.quick","twin","1,2,3",1,4,False)
mc("C24.merge.quick","twin-merge","1,2",1,4,False)
mc("C25.curves.quick","edit","1,2",1,4,False)
mc("C26.curves.quick","history","1,2",1,2,False)
mc("C26.merge.quick","merge","1,2",1,2,False)
mc("C26.edit.quick","edit","1,2",1,2,False)
def points(name,c,d):
    open(f"{V}/{name}.cfg","w").write(f"\\* MODULE MCPoints\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT CountMax = {c}\nCONSTANT DimMax = {d}\nCONSTANT Kinds = {{\"data\", \"control\", \"capacity\"}}\nINVARIANT Exported\nINVARIANT Reversal\n")
points("C26.points.quick",5,3)
def pairs(name,degs,inner,den,la,lb):
    open(f"{V}/{name}.cfg","w").write(f"\\* MODULE MCPairs\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Degrees = {{{degs}}}\nCONSTANT InnerMax = {inner}\nCONSTANT Den = {den}\nCONSTANT LenA = {la}\nCONSTANT LenB = {lb}\nINVARIANT Exported\nINVARIANT Independence\nINVARIANT Frame\n")
pairs("C27.pairs.quick","1,2",1,2,1,1)
BINV="Recurrence Unity Positive Local SumDef Ends Taylor Beyond Smooth Towers Blossoms Search Queries".split()
def basis(name,out,degs,inner,den,fine,invs,open_=False):
    t=f"\\* MODULE MCBasis\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Out = \"{out}\"\nCONSTANT Degrees = {{{degs}}}\nCONSTANT InnerMax = {inner}\nCONSTANT Den = {den}\nCONSTANT Fine = {fine}\nCONSTANT Open = {str(open_).upper()}\n"
    t+="".join(f"INVARIANT {i}\n" for i in ["Exported"]+invs.split())
    open(f"{V}/{name}.cfg","w").write(t)
basis("C01.basis.quick","eval","0,1,2,3,4",3,4,4,"SumDef Ends Smooth Blossoms")
basis("C02.basis.quick","derivatives","0,1,2,3,4",3,4,2,"Taylor Beyond Towers Smooth")
basis("C03.basis.quick","basis","0,1,2,3,4",3,4,2,"Recurrence Unity Positive Local")
basis("C21.basis.quick","find","0,1,2,3,4",3,4,2,"Search")
basis("C23.basis.quick","queries","0,1,2,3,4",4,4,2,"Queries")
basis("C09.basis.quick","curves","1,2,3",2,4,2,"Queries")
basis("C22.basis.quick","curves","1,2,3",2,4,2,"Towers")
os.remove(V+"/C09.basis.quick.cfg"); os.remove(V+"/C22.basis.quick.cfg")
open(f"{V}/ALL.rational.quick.cfg","w").write("\\* MODULE RationalCheck\nSPECIFICATION Spec\nINVARIANT Scalars\nINVARIANT Big\nINVARIANT Vectors\nINVARIANT Specials\n")
def gen(name,out,degs,pm,den,coords,dm,invs):
    t=f"\\* MODULE MCGen\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Out = \"{out}\"\nCONSTANT Degrees = {{{degs}}}\nCONSTANT ParamsMax = {pm}\nCONSTANT Den = {den}\nCONSTANT Coords = {{{coords}}}\nCONSTANT DataMax = {dm}\n"
    t+="".join(f"INVARIANT {i}\n" for i in ["Exported"]+invs.split())
    open(f"{V}/{name}.cfg","w").write(t)
gen("C14.gen.quick","knots","0,1,2,3",5,6,"0",1,"Valid UniformSpans Unique Greville")
gen("C15.gen.quick","deboor","1,2,3",5,6,"0",1,"Valid DeBoorSpans Unique")
gen("C16.gen.quick","params","1",1,2,"0,1,4,5",3,"Chord Centripetal Equal")
def fit(name,out,degs,ex,more,invs):
    t=f"\\* MODULE MCFit\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Out = \"{out}\"\nCONSTANT Degrees = {{{degs}}}\nCONSTANT Extra = {ex}\nCONSTANT More = {more}\n"
    t+="".join(f"INVARIANT {i}\n" for i in ["Exported"]+invs.split())
    open(f"{V}/{name}.cfg","w").write(t)
fit("C17.fit.quick","interp","1,2,3,4",3,0,"Optimal Through Constants")
fit("C18.fit.quick","fit","1,2,3",2,2,"Optimal EndsKept Through Constants")
fit("C19.fit.quick","penalty","1,2,3",2,2,"Optimal EndsKept Constants")
fit("C20.fit.quick","refuse","1,2,3",2,1,"Refused")

mc("C28.curves.quick","open","1,2",1,2,False)
basis("C28.basis.quick","basis","0,1,2,3",2,4,1,"Recurrence Unity Positive Local SumDef Taylor Beyond Smooth Towers Blossoms",True)
basis("C28.find.quick","find","0,1,2,3",2,4,1,"Search Queries",True)
basis("C28.eval.quick","derivatives","1,2,3",1,4,1,"Beyond",True)

# thorough: longer histories, finer grids, higher degrees
mc("C01.curves.thorough","evaluate","1,2,3,4",2,4,True)
mc("C02.curves.thorough","evaluate","1,2,3,4",2,4,True)
mc("C04.curves.thorough","range","0,1,2,3",2,4,True)
mc("C05.curves.thorough","insert","1,2,3",2,4,True)
mc("C06.curves.thorough","limit","1,2,3",1,4,True)
mc("C07.curves.thorough","history","1,2",1,4,True)
mc("C08.curves.thorough","split","1,2,3",1,4,True)
mc("C09.curves.thorough","reverse","1,2,3",2,4,True)
mc("C10.curves.thorough","merge","1,2,3",1,4,True)
mc("C11.curves.thorough","merge","1,2,3",2,4,False)
mc("C13.curves.thorough","attach","1,2,3",1,4,True)
mc("C22.curves.thorough","deriv","1,2,3",2,4,False)
mc("C22.long.thorough","deriv","1,2,3",1,4,True)
mc("C22.part.thorough","part","1,2,3",1,4,True)
mc("C24.curves.thorough","twin","1,2,3",2,4,True)
mc("C24.merge.thorough","twin-merge","1,2,3",2,4,False)
mc("C25.curves.thorough","edit","1,2",1,4,True)
mc("C26.curves.thorough","history","1,2,3",2,4,False)
mc("C28.curves.thorough","open","1,2,3",1,2,False)
mc("C28.long.thorough","open","2",1,2,True)
pairs("C27.pairs.thorough","2",1,2,2,1)
points("C26.points.thorough",7,4)
basis("C01.basis.thorough","eval","0,1,2,3,4,5,6",4,6,4,"SumDef Ends Smooth Blossoms")
basis("C02.basis.thorough","derivatives","0,1,2,3,4,5,6",4,6,2,"Taylor Beyond Towers Smooth")
basis("C03.basis.thorough","basis","0,1,2,3,4,5,6",4,6,2,"Recurrence Unity Positive Local")
basis("C21.basis.thorough","find","0,1,2,3,4,5,6",5,6,2,"Search")
basis("C23.basis.thorough","queries","0,1,2,3,4,5,6",5,6,2,"Queries")
basis("C28.basis.thorough","basis","0,1,2,3,4",2,4,2,"Recurrence Unity Positive Local SumDef Taylor Beyond Smooth Towers Blossoms",True)
basis("C28.find.thorough","find","0,1,2,3,4",3,4,1,"Search Queries",True)
gen("C14.gen.thorough","knots","0,1,2,3,4,5",7,10,"0",1,"Valid UniformSpans Unique Greville")
gen("C15.gen.thorough","deboor","1,2,3,4,5",7,10,"0",1,"Valid DeBoorSpans Unique")
gen("C16.gen.thorough","params","1",1,2,"0,1,4,5",4,"Chord Centripetal Equal")
fit("C17.fit.thorough","interp","1,2,3,4,5",5,0,"Optimal Through Constants")
fit("C18.fit.thorough","fit","1,2,3,4",4,3,"Optimal EndsKept Through Constants")
fit("C19.fit.thorough","penalty","1,2,3,4",3,2,"Optimal EndsKept Constants")
fit("C20.fit.thorough","refuse","1,2,3,4,5",4,3,"Refused")
