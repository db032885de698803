# Algebraic laws of kernels (checks/laws.py).  D: derivatives of energies and constraints (C16), I: identities (C17).
BASEK = {k.name: (h, k) for h, ks in BASE for k in ks}
K = lambda *a, **k: Kernel(*a, **k)
VA = lambda n, p, k: "CVec3d %s[%d]={%s}; " % (n, k, ",".join("V3(%s+%d)" % (p, 3 * i) for i in range(k)))
PUTV = lambda o, x, k: " ".join("put3(%s+%d,%s[%d]);" % (o, 3 * i, x, i) for i in range(k))
SYM = "eq h[ijab] = h[jiba]"
DLAWS = {
 "WdWddW_SquareLengthLineseg3D": ["d result = w[ia] p[ia]", "d w[ia] = h[ijab] p[jb]", "eq h[ijab] = h[jiba]"],
 "CdC_SquareLengthLineseg3D": ["d c = d[ia] p[ia]"],
 "CdC_LengthTriEdges23(world)": ["d c[k] = d[kia] p[ia]"],
 "CdC_LengthTetEdges(world)": ["d c[k] = d[kia] p[ia]"],
 "WdWddW_Rod2": ["d w = d[ia] p[ia]", "eq h[ijab] = h[jiba]"],
 "CdC_Rod3BendStraight": ["d c[k] = d[kia] p[ia]"],
 "WdWddW_Rod3BendStraight": ["d result = w[ia] p[ia]", "d w[ia] = h[ijab] p[jb]", "eq h[ijab] = h[jiba]"],
 "WdWddW_HairApprox": ["eq h[ijab] = h[jiba]"],
 "CdC_QuadBend(world)": ["d c[k] = d[kia] p[ia]"],
 "WdWddW_Bend(world)": ["d w = d[ia] p[ia]", "d d[ia] = h[ijab] p[jb]", "eq h[ijab] = h[jiba]"],
 "WdWddW_QuadraticBending_Sensitivity(world)": ["d r[ia] = k[ijab] p[jb]", "d r[ia] = d[ijab] P[jb]", "eq k[ijab] = k[jiba]"],
 "CdC_StVK(world)": ["d c[k] = d[kia] p[ia]"],
 "CdC_EnergyStVK(world)": ["d c = d[ia] p[ia]"],
 "WdWddW_CST(world)": ["d w = d[ia] p[ia]", "d d[ia] = h[ijab] p[jb]", "eq h[ijab] = h[jiba]"],
 "WdWddW_CST_Sensitivity(world)": ["d r[ia] = k[ijab] p[jb]", "d r[ia] = d[ijab] P[jb]", "eq k[ijab] = k[jiba]"],
 "WdWddW_MIPS(world)": ["d w = d[ia] p[ia]", "d d[ia] = h[ijab] p[jb]", "eq h[ijab] = h[jiba]"],
 "AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex": ["d w = d[ia] u[ia]", "d d[ia] = h[ijab] u[jb]", "eq h[ijab] = h[jiba]"],
 "AddWdWddW_Solid3Compression_Hex": ["d w = d[ia] u[ia]", "d d[ia] = h[ijab] u[jb]", "eq h[ijab] = h[jiba]"],
 "MakeMat_PlateBendingDKT": ["eq a[ij] = a[ji]", "eq f[ijab] = f[jiba]", "eq b[ija] = d[jia]", "d g[i] = -1 a[ij] w[j] + -1 b[ija] u[ja]", "d h[ia] = -1 f[ijab] u[jb] + -1 d[ija] w[j]"],
 "WdWddW_PlateBendingMITC3": ["d w = d[ia] u[ia]", "d d[ia] = h[ijab] u[jb]", "eq h[ijab] = h[jiba]"],
 "dWddW_Beam2": ["d d[ia] = h[ijab] u[jb]", "eq h[ijab] = h[jiba]"],
 "WdWddW_Contact": ["d w = d[a] c[a]", "d d[a] = h[ab] c[b]", "eq h[ab] = h[ba]"],
 "EMat_Poisson_Tri2D": ["d r[i] = -1 e[ij] v[j]", "eq e[ij] = e[ji]"],
 "EMat_Poisson_Tet3D": ["d r[i] = -1 e[ij] v[j]", "eq e[ij] = e[ji]"],
 "EMat_Poission2_QuadOrth": ["eq e[ij] = e[ji]"],
 "EMat_Poisson2_QuadOrth_GaussInt": ["eq e[ij] = e[ji]"],
 "EMat_Diffusion_Tri2D": ["eq e[ij] = e[ji]"],
 "EMat_Diffusion_Newmark_Tet3D": ["eq e[ij] = e[ji]"],
 "EMat_SolidLinear2_QuadOrth_GaussInt": ["eq e[ijab] = e[jiba]"],
 "EMat_SolidLinear_Static_Tet": ["d r[ia] = -1 e[ijab] u[jb]", "eq e[ijab] = e[jiba]"],
 "elemMatRes_LinearSolidGravity3_Static_Q1": ["d r[ia] = -1 e[ijab] u[jb]", "eq e[ijab] = e[jiba]"],
 "matRes_LinearSolid_TetP2": ["d r[ia] = -1 e[ijab] u[jb]", "eq e[ijab] = e[jiba]"],
 "EMat_SolidStaticLinear_Tri2D": ["d r[ia] = -1 e[ijab] u[jb]", "eq e[ijab] = e[jiba]"],
 "SetEmat_LinearSolid3<4>": ["eq e[ijab] = e[jiba]"],
 "EMat_SolidDynamicLinear_Tri2D": ["eq e[ijab] = e[jiba]"],
 "EMat_SolidLinear_NewmarkBeta_MeshTet3D": ["eq e[ijab] = e[jiba]"],
 "AddEmatConsistentMassTet": ["eq o[ijab] = o[jiba]"],
 "EmatConsistentMassTri2": ["eq o[ijab] = o[jiba]"],
 "SetEMatLaplaceTet": ["eq o[ij] = o[ji]"],
 "SetEMatLaplaceTet(vec)": ["eq o[ijab] = o[jiba]"],
 "MakeMat_Stokes3D_Static_P1": ["eq e[ijab] = e[jiba]"],
 "EMat_Stokes2D_Static_P1": ["eq e[ijab] = e[jiba]"],
}
D = []
for h, ks in BASE:
    for k in ks:
        if k.name in DLAWS:
            k.laws = DLAWS[k.name]
    D.append((h, [k for k in ks if k.name in DLAWS]))
D.append((["fem_discreteshell.h", "vec3.h"], [
 K("CdC_DiscreteShell", "p:n4p3 L, >o:s, >g:n4v3 L-1", "  CVec3d q[4]; CdC_DiscreteShell(*o,q,V3(p),V3(p+3),V3(p+6),V3(p+9)); " + PUTV("g", "q", 4), laws=["d o = g[ia] p[ia]"]),
]))
# rods: nodes a + d; the frames s (made orthonormal to the segments) follow the segments by minimum rotation and turn by t
RODIN = ("CVec3d A[3],Q[3],S[2]; for(int i=0;i<3;++i){ A[i]=V3(a+3*i); Q[i]=V3(d+3*i); } for(int i=0;i<2;++i){ CVec3d v=A[i+1]-A[i], u=v/v.norm(), x=V3(s+3*i); x=x-u*u.dot(x); x=x/x.norm(); "
         "CVec3d f[3]; RodFrameTrans(f,x,v,Q[i+1]-Q[i],t[i]); S[i]=f[0]; } CVec3d P[3]; for(int i=0;i<3;++i){ P[i]=A[i]+Q[i]; } ")
RODOUT = "CVec3d dp[3]; double dt[2]; CMat3d pp[3][3]; CVec3d tp[2][3]; double tt[2][2]; "
RODPUT = PUTV("g", "dp", 3) + " e[0]=dt[0]; e[1]=dt[1]; for(int i=0;i<9;++i){put9(h+9*i,pp[i/3][i%3].p_);} for(int i=0;i<6;++i){put3(m+3*i,tp[i/3][i%3]);} for(int i=0;i<4;++i){n[i]=tt[i/2][i%2];} return W;"
RIN = "a:n3p3 L, d:n3v3 L, s:n2v3, t:n2, "
ROUT = ">g:n3v3, >e:n2, >h:n3n3v3v3, >m:n2n3v3, >n:n2n2"
NULL = dict(null=["d", "t"])
QUAD = "d g[ia] d[ia] + e[k] t[k] = h[ijab] d[ia] d[jb] + 2 m[kia] t[k] d[ia] + n[kl] t[k] t[l]"
RSYM = [SYM, "eq n[ij] = n[ji]"]
D.append((["fem_rod3_darboux.h", "vec3.h", "mat3.h"], [
 K("WdWddW_DotFrame", RIN + "f:n3, " + ROUT, "  " + RODIN + RODOUT + "double W=WdWddW_DotFrame(dp,dt,pp,tp,tt,P,S,f); " + RODPUT, ret="s", laws=["d result = g[ia] d[ia] + e[k] t[k]", QUAD], **NULL),
 K("CdC_Rod", RIN + ">c:n3, >g:n3n3v3, >e:n3n2", "  " + RODIN + "CVec3d dd[3][3]; double dt[3][2]; CdC_Rod(c,dd,dt,P,S); for(int i=0;i<9;++i){put3(g+3*i,dd[i/3][i%3]);} for(int i=0;i<6;++i){e[i]=dt[i/2][i%2];}",
   laws=["d c[k] = g[kia] d[ia] + e[kl] t[l]"], **NULL),
 K("CdC_Rod:value", "p:n3p3 L, s:n2v3, >z:n3", "  " + VA("P", "p", 3) + VA("S", "s", 2) + "CVec3d dd[3][3]; double dt[3][2], c[3]; CdC_Rod(c,dd,dt,P,S); CVec3d x=Darboux_Rod(P,S); for(int i=0;i<3;++i){z[i]=c[i]-x[i];}", laws=["zero z"]),
 K("WdWddW_Rod3Exact", RIN + "k:n3, o:n3, " + ROUT, "  " + RODIN + RODOUT + "double W=WdWddW_Rod3Exact(dp,dt,pp,tp,tt,k,P,S,V3(o)); " + RODPUT, ret="s", laws=["d result = g[ia] d[ia] + e[k] t[k]", QUAD], **NULL),
 K("WdWddW_Rod3Approx", RIN + "k:n3, o:n3, " + ROUT, "  " + RODIN + RODOUT + "double W=WdWddW_Rod3Approx(dp,dt,pp,tp,tt,k,P,S,V3(o)); " + RODPUT, ret="s", laws=["d result = g[ia] d[ia] + e[k] t[k]"] + RSYM, **NULL),
 K("WdWddW_HairApprox", RIN + "k:n3, o:n3, >g:n3n4, >h:n3n3n4n4", "  " + RODIN + "return WdWddW_HairApprox(OA(g,4),OC(h,3,4,4),k,P,S,V3(o)); ", ret="s", laws=[SYM], **NULL),
 K("WdWddW_HairApprox:gradient", RIN + "k:n3, o:n3, >g:n3v3, >e:n2, >y:n1", "  " + RODIN + "double G[3][4], H[3][3][4][4]; double W=WdWddW_HairApprox(G,H,k,P,S,V3(o)); for(int i=0;i<9;++i){g[i]=G[i/3][i%3];} e[0]=G[0][3]; e[1]=G[1][3]; y[0]=G[2][3]; return W;", ret="s", laws=["d result = g[ia] d[ia] + e[k] t[k]", "zero y"], **NULL),
]))
Z = lambda name, params, n, body, note="", **k: Kernel(name, params + (", " if params else "") + ">z:n%d" % n, "  " + body, note=note, laws=["zero z"], **k)
POS = lambda q: "0*std::sqrt(%s)" % q          # the law is stated where q is positive
I = []
I.append((["vec2.h"], [
 Z("Normalize2", "a:v2", 4, "double x[2]={a[0],a[1]}; Normalize2(x); double l=std::sqrt(a[0]*a[0]+a[1]*a[1]); CVec2d y=V2(a).normalized(); for(int i=0;i<2;++i){ z[i]=x[i]*l-a[i]; z[2+i]=y[i]*l-a[i]; }", "normalising divides by the length"),
 Z("Area_Tri2", "a:p2, b:p2, c:p2", 3, "z[0]=Area_Tri2(a,b,c)-rarea2(a,b,c); z[1]=Area_Tri2(V2(a),V2(b),V2(c))-rarea2(a,b,c); z[2]=TriHeight(V2(a),V2(b),V2(c))*Distance(V2(b),V2(c))-2*rarea2(a,b,c);", "signed area, and height times base is twice the area"),
 Z("Cross2/Dot2", "a:v2, b:v2", 7, "double d=a[0]*b[0]+a[1]*b[1], c=a[0]*b[1]-a[1]*b[0]; z[0]=Dot2(a,b)-d; z[1]=Cross2(V2(a),V2(b))-c; z[2]=Cross(V2(a),V2(b))-c; z[3]=Dot(V2(a),V2(b))-d; z[4]=(V2(a)^V2(b))-c; z[5]=V2(a).dot(V2(b))-d; z[6]=0;", "products of two vectors"),
 Z("SquareLength2", "a:v2, b:p2", 7, "double l=a[0]*a[0]+a[1]*a[1], d=(a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1]); z[0]=SquareLength2(a)-l; z[1]=SquareDistance2(a,b)-d; z[2]=V2(a).squaredNorm()-l; z[3]=SquareLength(V2(a))-l; z[4]=SquareDistance(V2(a),V2(b))-d; z[5]=Length(V2(a))*V2(a).norm()-l; double e=Distance(V2(a),V2(b)); z[6]=e*e-d;", "squared lengths and distances"),
 Z("CVec2::Rotate", "a:v2, t:s", 6, "double c=std::cos(t), s=std::sin(t); CVec2d x=V2(a).Rotate(t), y=rotate(V2(a),t), w=rotate90(V2(a)); z[0]=x[0]-(c*a[0]-s*a[1]); z[1]=x[1]-(s*a[0]+c*a[1]); z[2]=y[0]-x[0]; z[3]=y[1]-x[1]; z[4]=w[0]+a[1]; z[5]=w[1]-a[0];", "counter-clockwise rotation"),
 Z("CenterCircumcircle", "a:p2, b:p2, c:p2", 3, "CVec2d r; CenterCircumcircle(V2(a),V2(b),V2(c),r); double R=SquareCircumradius(V2(a),V2(b),V2(c)); z[0]=SquareDistance(r,V2(a))-R; z[1]=SquareDistance(r,V2(b))-R; z[2]=SquareDistance(r,V2(c))-R;", "the circumcentre has the circumradius as distance to all corners"),
 Z("Mat2Vec", "m:n4, a:n2", 2, "CVec2d x=Mat2Vec(m,V2(a)); z[0]=x[0]-(m[0]*a[0]+m[1]*a[1]); z[1]=x[1]-(m[2]*a[0]+m[3]*a[1]);", "matrix times vector"),
 Z("MakeMassMatrixTri", "r:s, a:p2, b:p2, c:p2", 12, "double M[9]; const unsigned int ip[3]={0,1,2}; std::vector<CVec2d> v={V2(a),V2(b),V2(c)}; MakeMassMatrixTri(M,r,ip,v); double A=rarea2(a,b,c)*r; for(int i=0;i<3;++i){ for(int j=0;j<3;++j){ z[3*i+j]=M[3*i+j]-M[3*j+i]; } z[9+i]=M[3*i]+M[3*i+1]+M[3*i+2]-A/3; }", "the mass matrix is symmetric and its rows add up to a third of the mass"),
 Z("Mat3Vec2_AffineDirection", "m:n9, a:n2", 2, "CVec2d x=V2(a).Mat3Vec2_AffineDirection(m); z[0]=x[0]-(m[0]*a[0]+m[1]*a[1]); z[1]=x[1]-(m[3]*a[0]+m[4]*a[1]);", "linear part of an affine map"),
]))
I.append((["vec3.h", "vec3_funcs.h"], [
 Z("Dot3/Length3", "a:v3, b:v3", 8, "double d=rdot(a,b), l=rdot(a,a), e[3]; rsub(e,a,b); double q=rdot(e,e); z[0]=Dot3(V3(a),V3(b))-d; z[1]=Length3(a)*V3(a).norm()-l; z[2]=SquareLength3(a)-l; z[3]=SquareDistance3(a,b)-q; z[4]=Distance3(a,b)*Distance3(a,b)-q; z[5]=V3(a).dot(V3(b))-d; z[6]=V3(a).squaredNorm()-l; z[7]=V3(a).norm()*Length3(a)-l;", "dot products, lengths and distances"),
 Z("Cross3", "a:v3, b:v3, c:v3", 10, "double r[3],o[3]; rcross(r,a,b); Cross(o,a,b); CVec3d x=Cross(V3(a),V3(b)), y=V3(a).cross(V3(b)); for(int i=0;i<3;++i){ z[i]=o[i]-r[i]; z[3+i]=x[i]-r[i]; z[6+i]=y[i]-r[i]; } z[9]=ScalarTripleProduct(V3(a),V3(b),V3(c))-rdot(r,c);", "cross and triple products"),
 Z("Normalize3", "a:v3", 9, "double l=std::sqrt(rdot(a,a)), x[3]={a[0],a[1],a[2]}; Normalize3(x); CVec3d y=V3(a), w=V3(a).normalized(); Normalize3(y); for(int i=0;i<3;++i){ z[i]=x[i]*l-a[i]; z[3+i]=y[i]*l-a[i]; z[6+i]=w[i]*l-a[i]; }", "normalising divides by the length"),
 Z("CVec3::normalize", "a:v3", 3, "double l=std::sqrt(rdot(a,a)); CVec3d y=V3(a); y.normalize(); for(int i=0;i<3;++i){ z[i]=y[i]*l-a[i]; }", "normalising divides by the length"),
 Z("AverageTwo3", "a:p3, b:p3, c:p3, d:p3", 6, "double o[3],q[3]; AverageTwo3(o,a,b); AverageFour3(q,a,b,c,d); for(int i=0;i<3;++i){ z[i]=2*o[i]-a[i]-b[i]; z[3+i]=4*q[i]-a[i]-b[i]-c[i]-d[i]; }", "averages"),
 Z("Add3", "a:p3, b:v3", 3, "double o[3]={a[0],a[1],a[2]}; Add3(o,b); for(int i=0;i<3;++i){ z[i]=o[i]-a[i]-b[i]; }", "sum"),
 Z("FrameFromVectorZ", "n:v3", 9, "CVec3d a,b,c=V3(n)/V3(n).norm(); FrameFromVectorZ(a,b,c); double F[9]={a[0],a[1],a[2],b[0],b[1],b[2],c[0],c[1],c[2]}, T[9], M[9]; rtr(T,F,3); rmm(M,F,T,3); rid(z,M,3); z[2]=rdet3(F)-1;", "the frame is orthonormal and right-handed"),
 Z("RotateVec3WithAxisAngleVector", "v:v3, r:v3", 5, "CVec3d x=RotateVec3WithAxisAngleVector(V3(v),V3(r)); double l=std::sqrt(rdot(r,r)), c=std::cos(l), s=std::sin(l), k[3], o[3]; rcross(k,r,v); double d=rdot(r,v)/(l*l); for(int i=0;i<3;++i){ o[i]=c*v[i]+s/l*k[i]+(1-c)*d*r[i]; z[i]=x[i]-o[i]; } z[3]=0; z[4]=0;", "Rodrigues' rotation formula"),
 Z("CVec3 operators", "a:v3, b:v3, s:s", 24, "CVec3d A=V3(a),B=V3(b); CVec3d p=A+B, q=A-B, r=s*A, t=A*s, u=A/s, v=-A; CVec3d w=A; w+=B; w*=s; CVec3d x=A; x-=B; x/=s; for(int i=0;i<3;++i){ z[i]=p[i]-a[i]-b[i]; z[3+i]=q[i]-a[i]+b[i]; z[6+i]=r[i]-s*a[i]; z[9+i]=t[i]-s*a[i]; z[12+i]=u[i]*s-a[i]; z[15+i]=v[i]+a[i]; z[18+i]=w[i]-s*(a[i]+b[i]); z[21+i]=x[i]*s-a[i]+b[i]; }", "vector arithmetic"),
 Z("CVec3::mult/ScaleTo", "a:v3, b:v3, s:s, o:n3", 9, "double p[3], q[3]={o[0],o[1],o[2]}; V3(a).CopyToScale(p,s); V3(a).AddToScale(q,s); CVec3d m=V3(a).mult(V3(b)); for(int i=0;i<3;++i){ z[i]=p[i]-s*a[i]; z[3+i]=q[i]-o[i]-s*a[i]; z[6+i]=m[i]-a[i]*b[i]; }", "scaled copies"),
]))
I.append((["mat2.h"], [
 Z("InverseMat2", "m:n4", 4, "double o[4], p[4]; InverseMat2(o,m); rmm(p,m,o,2); rid(z,p,2);", "the product of a matrix and its inverse is the identity"),
 Z("MatMat2/MatVec2", "a:n4, b:n4, v:n2", 14, "double o[4],r[4],x[2],y[2]; MatMat2(o,a,b); rmm(r,a,b,2); for(int i=0;i<4;++i){ z[i]=o[i]-r[i]; } MatVec2(x,a,v); rmv(y,a,v,2); z[4]=x[0]-y[0]; z[5]=x[1]-y[1]; double g[4],t[4]; gramian2(g,a); rtr(t,a,2); rmm(r,t,a,2); for(int i=0;i<4;++i){ z[6+i]=g[i]-r[i]; } CMat2d A(a[0],a[1],a[2],a[3]); z[10]=A.determinant()-(a[0]*a[3]-a[1]*a[2]); CMat2d T=A.transpose(); z[11]=T.p[1]-a[2]; z[12]=T.p[2]-a[1]; z[13]=T.p[0]-a[0];", "products, transpose, determinant of 2x2 matrices"),
 Z("VLVt2", "l:n2, v:n4", 4, "double o[4]; VLVt2(o,l[0],l[1],v); for(int i=0;i<2;++i){ for(int j=0;j<2;++j){ z[2*i+j]=o[2*i+j]-(v[2*i]*l[0]*v[2*j]+v[2*i+1]*l[1]*v[2*j+1]); } }", "V diag(l) V^T"),
 Z("RotationalComponentOfMatrix2", "m:n4", 5, "double R[4],T[4],P[4]; RotationalComponentOfMatrix2(R,m); rtr(T,R,2); rmm(P,T,R,2); rid(z,P,2); rmm(P,T,m,2); z[4]=P[1]-P[2];", "an orthogonal matrix times a symmetric one"),
 Z("polar_decomposition2", "m:n4", 9, "CMat2d A(m[0],m[1],m[2],m[3]),R,S; polar_decomposition(R,S,A); double T[4],P[4]; rtr(T,R.p,2); rmm(P,T,R.p,2); rid(z,P,2); rmm(P,R.p,S.p,2); for(int i=0;i<4;++i){ z[4+i]=P[i]-m[i]; } z[8]=S.p[1]-S.p[2];", "rotation times symmetric matrix"),
 Z("svd2", "m:n4", 12, "CMat2d A(m[0],m[1],m[2],m[3]),U,S,V; svd(U,S,V,A); double T[4],P[4]; rtr(T,U.p,2); rmm(P,T,U.p,2); rid(z,P,2); rtr(T,V.p,2); rmm(P,T,V.p,2); rid(z+4,P,2); double X[4],Y[4]; rmm(X,U.p,S.p,2); rmm(Y,X,T,2); for(int i=0;i<4;++i){ z[8+i]=Y[i]-m[i]; }", "U sigma V^T is the matrix, U and V orthogonal"),
 Z("CMat2::outer_product", "a:n2, b:n2", 4, "CMat2d M=CMat2d::outer_product(a,b); for(int i=0;i<4;++i){ z[i]=M.p[i]-a[i/2]*b[i%2]; }", "outer product"),
]))
I.append((["mat3.h", "mat3_funcs.h", "vec3.h", "quat.h"], [
 Z("Inverse_Mat3", "m:n9", 36, "double o[9],p[9]; Inverse_Mat3(o,m); rmm(p,m,o,3); rid(z,p,3); double q[9]; for(int i=0;i<9;++i){q[i]=m[i];} Inverse_Mat3(q); rmm(p,m,q,3); rid(z+9,p,3); CMat3d a=M3(m).Inverse(); rmm(p,a.p_,m,3); rid(z+18,p,3); CMat3d b=M3(m); b.SetInverse(); rmm(p,b.p_,m,3); rid(z+27,p,3);", "the product of a matrix and its inverse is the identity"),
 Z("MatMat3", "a:n9, b:n9, s:s, t:s, c:n9", 54, "double r[9],T[9],o[9]; rmm(r,a,b,3); MatMat3(o,a,b); for(int i=0;i<9;++i){z[i]=o[i]-r[i];} CMat3d x=M3(a)*M3(b), y=M3(a).MatMat(M3(b)); for(int i=0;i<9;++i){z[9+i]=x.p_[i]-r[i]; z[18+i]=y.p_[i]-r[i];} rtr(T,b,3); rmm(r,a,T,3); MatMatT3(o,a,b); for(int i=0;i<9;++i){z[27+i]=o[i]-r[i];} rtr(T,a,3); rmm(r,T,b,3); MatTMat3(o,a,b); for(int i=0;i<9;++i){z[36+i]=o[i]-r[i];} for(int i=0;i<9;++i){o[i]=c[i];} MatTMat3_ScaleAdd(o,a,b,s,t); for(int i=0;i<9;++i){z[45+i]=o[i]-(s*r[i]+t*c[i]);}", "products of 3x3 matrices"),
 Z("CMat3::MatMatTrans", "a:n9, b:n9", 9, "double r[9],T[9]; rtr(T,a,3); rmm(r,T,b,3); CMat3d x=M3(a).MatMatTrans(M3(b)); for(int i=0;i<9;++i){z[i]=x.p_[i]-r[i];}", "transposed product"),
 Z("MatVec3", "m:n9, a:n3, s:s, t:s, c:n3", 36, "double r[3],q[3],T[9],o[3]; rmv(r,m,a,3); rtr(T,m,3); rmv(q,T,a,3); MatVec3(o,m,a); for(int i=0;i<3;++i){z[i]=o[i]-r[i];} CVec3d x=Mat3Vec3(m,V3(a)), y=M3(m).MatVec(a), w=M3(m)*V3(a), u=V3(a)*M3(m); for(int i=0;i<3;++i){z[3+i]=x[i]-r[i]; z[6+i]=y[i]-r[i]; z[9+i]=w[i]-r[i]; z[12+i]=u[i]-q[i];} MatTVec3(o,m,a); for(int i=0;i<3;++i){z[15+i]=o[i]-q[i];} VecMat3(o,a,m); for(int i=0;i<3;++i){z[18+i]=o[i]-q[i];} M3(m).MatVecTrans(a,o); for(int i=0;i<3;++i){z[21+i]=o[i]-q[i];} for(int i=0;i<3;++i){o[i]=c[i];} MatVec3_ScaleAdd(o,m,a,s,t); for(int i=0;i<3;++i){z[24+i]=o[i]-(s*r[i]+t*c[i]); o[i]=c[i];} MatTVec3_ScaleAdd(o,m,a,s,t); for(int i=0;i<3;++i){z[27+i]=o[i]-(s*q[i]+t*c[i]);} for(int i=30;i<36;++i){z[i]=0;}", "matrix times vector"),
 Z("Det_Mat3", "m:n9, a:n9", 8, "z[0]=Det_Mat3(m)-rdet3(m); z[1]=M3(m).determinant()-rdet3(m); z[2]=M3(m).trace()-m[0]-m[4]-m[8]; z[3]=M3(m).squaredNorm()-rdot(m,m,9); double p[9]; rmm(p,m,m,3); double t=m[0]+m[4]+m[8]; z[4]=M3(m).SecondInvarint()-(t*t-p[0]-p[4]-p[8])/2; double s[6]={a[0],a[1],a[2],a[3],a[4],a[5]}; z[5]=SquareNormFrobenius_SymMat3(s)-(s[0]*s[0]+s[1]*s[1]+s[2]*s[2]+2*(s[3]*s[3]+s[4]*s[4]+s[5]*s[5])); z[6]=0; z[7]=0;", "invariants of a matrix"),
 Z("Mat3_Spin", "a:n3, b:n3, s:s, t:s, c:n9", 24, "double r[3],M[9],o[3]; rcross(r,a,b); Mat3_Spin(M,a); rmv(o,M,b,3); for(int i=0;i<3;++i){z[i]=o[i]-r[i];} auto N=Mat3_Spin(V3(a)); rmv(o,N.data(),b,3); for(int i=0;i<3;++i){z[3+i]=o[i]-r[i];} CMat3d S=CMat3d::Skew(a); rmv(o,S.p_,b,3); for(int i=0;i<3;++i){z[6+i]=o[i]-r[i];} double q[9]; for(int i=0;i<9;++i){q[i]=c[i];} Mat3_Spin_ScaleAdd(q,a,s,t); double w[3]; rmv(w,c,b,3); rmv(o,q,b,3); for(int i=0;i<3;++i){z[9+i]=o[i]-(s*r[i]+t*w[i]);} auto X=Mat3_CrossCross(V3(a)); double rr[3]; rcross(rr,a,r); rmv(o,X.data(),b,3); for(int i=0;i<3;++i){z[12+i]=o[i]-rr[i];} CVec3d sv=Vec3_SpinVectorFromMat3<CMat3d,double>(S); for(int i=0;i<3;++i){z[15+i]=sv[i]-a[i];} auto I=Mat3_IrotPoint<CVec3d,double>(V3(a)); rmv(o,I.data(),b,3); for(int i=0;i<3;++i){z[18+i]=o[i]+rr[i];} for(int i=21;i<24;++i){z[i]=0;}", "the spin matrix of a turns b into the cross product a x b"),
 Z("Mat3_Identity", "s:s, t:s, c:n9", 27, "double o[9]; Mat3_Identity(o,s); for(int i=0;i<9;++i){z[i]=o[i]-(i%4==0?s:0); o[i]=c[i];} Mat3_Identity_ScaleAdd(o,s,t); for(int i=0;i<9;++i){z[9+i]=o[i]-(t*c[i]+(i%4==0?s:0));} Transpose_Mat3(o,c); CMat3d T=M3(c).transpose(); for(int i=0;i<9;++i){z[18+i]=(o[i]-c[i%3*3+i/3])*s+(T.p_[i]-c[i%3*3+i/3])*t;}", "identity and transpose"),
 Z("Mat3_OuterProduct", "a:n3, b:n3", 18, "auto M=Mat3_OuterProduct(V3(a),V3(b)); CMat3d N=CMat3d::OuterProduct(a,b); for(int i=0;i<9;++i){z[i]=M[i]-a[i/3]*b[i%3]; z[9+i]=N.p_[i]-a[i/3]*b[i%3];}", "outer product"),
 Z("Mat3_From3Bases", "a:n3, b:n3, c:n3", 9, "auto M=Mat3_From3Bases(V3(a),V3(b),V3(c)); for(int i=0;i<3;++i){z[i]=M[3*i]-a[i]; z[3+i]=M[3*i+1]-b[i]; z[6+i]=M[3*i+2]-c[i];}", "columns of the matrix"),
 Z("CMat3 linear", "a:n9, b:n9, s:s", 54, "CMat3d A=M3(a),B=M3(b); CMat3d p=A+B,q=A-B,r=s*A,t=A*s,u=A/s,v=A.Sym(); for(int i=0;i<9;++i){z[i]=p.p_[i]-a[i]-b[i]; z[9+i]=q.p_[i]-a[i]+b[i]; z[18+i]=r.p_[i]-s*a[i]; z[27+i]=t.p_[i]-s*a[i]; z[36+i]=u.p_[i]*s-a[i]; z[45+i]=2*v.p_[i]-a[i]-a[i%3*3+i/3];}", "matrix arithmetic"),
 Z("CMat3 +=", "a:n9, b:n9, s:s", 36, "CMat3d A=M3(a),B=M3(b); CMat3d p=A; p+=B; CMat3d q=A; q-=B; CMat3d r=A; r*=s; CMat3d m=-A; for(int i=0;i<9;++i){z[i]=p.p_[i]-a[i]-b[i]; z[9+i]=q.p_[i]-a[i]+b[i]; z[18+i]=r.p_[i]-s*a[i]; z[27+i]=m.p_[i]+a[i];}", "matrix arithmetic"),
 Z("CMat3::AddToScale", "a:n9, s:s, c:n9", 18, "double o[9],q[9]; for(int i=0;i<9;++i){o[i]=c[i];} M3(a).AddToScale(o,s); M3(a).CopyToScale(q,s); for(int i=0;i<9;++i){z[i]=o[i]-c[i]-s*a[i]; z[9+i]=q[i]-s*a[i];}", "scaled copies"),
 Z("Mat3_NormalProjection", "n:n3", 18, "double l=rdot(n,n); auto P=Mat3_NormalProjection(V3(n)/V3(n).norm()); auto Q=Mat3_Mirror(V3(n)/V3(n).norm()); for(int i=0;i<9;++i){ double nn=n[i/3]*n[i%3]/l; z[i]=P[i]-((i%4==0?1:0)-nn); z[9+i]=Q[i]-((i%4==0?1:0)-2*nn);}", "projection along and reflection of a unit normal"),
 Z("Mat3_MinimumRotation", "V:v3, v:v3", 13, "auto M=Mat3_MinimumRotation(V3(V),V3(v)); double L=std::sqrt(rdot(V,V)), l=std::sqrt(rdot(v,v)), T[9],P[9],o[3],n[3]; rtr(T,M.data(),3); rmm(P,T,M.data(),3); rid(z,P,3); rmv(o,M.data(),V,3); for(int i=0;i<3;++i){z[9+i]=o[i]*l-v[i]*L;} z[12]=rdet3(M.data())-1;", "a rotation that turns the first direction to the second"),
 Z("Mat3_MinimumRotation(axis)", "V:v3, v:v3", 3, "auto M=Mat3_MinimumRotation(V3(V),V3(v)); double o[3],n[3]; rcross(n,V,v); rmv(o,M.data(),n,3); for(int i=0;i<3;++i){z[i]=o[i]-n[i];}", "the rotation turns about the common normal"),
 Z("Mat3_MinimumRotation(opposite)", "V:v3", 13, "double v[3]={-V[0],-V[1],-V[2]}; auto M=Mat3_MinimumRotation(V3(V),V3(v)); double T[9],P[9],o[3]; rtr(T,M.data(),3); rmm(P,T,M.data(),3); rid(z,P,3); rmv(o,M.data(),V,3); for(int i=0;i<3;++i){z[9+i]=o[i]-v[i];} z[12]=rdet3(M.data())-1;", "a rotation that turns the first direction to the opposite"),
]))
ROTZ = "double T[9],P[9],o[3]; rtr(T,M,3); rmm(P,T,M,3); rid(z,P,3); z[9]=rdet3(M)-1; "
AX = ROTZ + "rmv(o,M,a,3); for(int i=0;i<3;++i){z[10+i]=o[i]-a[i];} double l=std::sqrt(rdot(a,a)); "
SKW = "for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; z[14+i]=(M[3*k+j]-M[3*j+k])/2*l-sn*a[i]; } "
ROD = "double cs=std::cos(l), sn=std::sin(l); z[13]=M[0]+M[4]+M[8]-1-2*cs; " + SKW
I.append((["mat3.h", "mat3_funcs.h", "vec3.h", "quat.h", "mat4.h"], [
 Z("Mat3_RotMatFromAxisAngleVec", "a:n3", 17, "double M[9]; Mat3_RotMatFromAxisAngleVec(M,a); " + AX + ROD, "rotation about the axis by the angle"),
 Z("Mat3_RotMatFromAxisAngleVec(vec)", "a:n3", 17, "auto N=Mat3_RotMatFromAxisAngleVec(V3(a)); double *M=N.data(); " + AX + ROD, "rotation about the axis by the angle"),
 Z("Mat3_RotMatFromRodriguesVector", "a:n3", 17, "auto N=Mat3_RotMatFromRodriguesVector(V3(a)); double *M=N.data(); " + AX + "double t=l/2, cs=(1-t*t)/(1+t*t), sn=2*t/(1+t*t); z[13]=M[0]+M[4]+M[8]-1-2*cs; " + SKW, "rotation with the Rodrigues vector 2 tan(angle/2) axis"),
 Z("Mat3_RotMatFromConformalRotationVector", "a:n3", 17, "auto N=Mat3_RotMatFromConformalRotationVector(V3(a)); double *M=N.data(); " + AX + "double t=l/4, h=(1-t*t)/(1+t*t), k=2*t/(1+t*t), cs=h*h-k*k, sn=2*h*k; z[13]=M[0]+M[4]+M[8]-1-2*cs; " + SKW, "rotation with the conformal vector 4 tan(angle/4) axis"),
 Z("Quat_CartesianAngle", "a:n3", 17, "double q[4],M[9]; Quat_CartesianAngle(q,a); Mat3_Quat(M,q); " + AX + ROD, "quaternion of a rotation vector"),
 Z("Mat4_AffineRotationCartesian", "a:n3", 24, "double m[16],M[9]; Mat4_AffineRotationCartesian(m,a); for(int i=0;i<9;++i){M[i]=m[i/3*4+i%3];} " + AX + ROD + "z[17]=m[3]; z[18]=m[7]; z[19]=m[11]; z[20]=m[12]; z[21]=m[13]; z[22]=m[14]; z[23]=m[15]-1;", "affine matrix of a rotation vector"),
 Z("Mat4_AffineRotationRodriguez", "a:n3", 24, "auto m=Mat4_AffineRotationRodriguez(a[0],a[1],a[2]); double M[9]; for(int i=0;i<9;++i){M[i]=m[i/3*4+i%3];} " + AX + "double t=l/2, cs=(1-t*t)/(1+t*t), sn=2*t/(1+t*t); z[13]=M[0]+M[4]+M[8]-1-2*cs; " + SKW + "z[17]=m[3]; z[18]=m[7]; z[19]=m[11]; z[20]=m[12]; z[21]=m[13]; z[22]=m[14]; z[23]=m[15]-1;", "affine matrix of a Rodrigues vector"),
 Z("AxisAngleVectorCartesian_Mat3", "a:n3", 9, "double M[9],r[3],N[9]; Mat3_RotMatFromAxisAngleVec(M,a); AxisAngleVectorCartesian_Mat3(r,M); Mat3_RotMatFromAxisAngleVec(N,r); for(int i=0;i<9;++i){z[i]=N[i]-M[i];}", "rotation vector of a rotation matrix gives the matrix again"),
 Z("Vec3_AxisAngleVecFromMat3", "a:n3", 9, "double M[9],r[3],N[9]; Mat3_RotMatFromAxisAngleVec(M,a); put3(r,Vec3_AxisAngleVecFromMat3<CMat3d,double>(M3(M))); Mat3_RotMatFromAxisAngleVec(N,r); for(int i=0;i<9;++i){z[i]=N[i]-M[i];}", "rotation vector of a rotation matrix gives the matrix again"),
 Z("AxisAngleVectorCRV_Mat3", "a:n3", 9, "auto M=Mat3_RotMatFromConformalRotationVector(V3(a)); double r[3]; AxisAngleVectorCRV_Mat3(r,M.data()); auto N=Mat3_RotMatFromConformalRotationVector(V3(r)); for(int i=0;i<9;++i){z[i]=N[i]-M[i];}", "conformal vector of a rotation matrix gives the matrix again"),
 Z("Quat_Mat3", "p:n4", 9, "double q[4],M[9],N[9],l=std::sqrt(rdot(p,p,4)),u[4]={p[0]/l,p[1]/l,p[2]/l,p[3]/l}; Mat3_Quat(M,u); Quat_Mat3(q,M); Mat3_Quat(N,q); for(int i=0;i<9;++i){z[i]=N[i]-M[i];}", "quaternion of a rotation matrix gives the matrix again"),
 Z("CMat3::GetQuaternion", "p:n4", 9, "double M[9],N[9],l=std::sqrt(rdot(p,p,4)),u[4]={p[0]/l,p[1]/l,p[2]/l,p[3]/l}; Mat3_Quat(M,u); auto q=M3(M).GetQuaternion(); double w[4]; put4(w,q); Mat3_Quat(N,w); for(int i=0;i<9;++i){z[i]=N[i]-M[i];}", "quaternion of a rotation matrix gives the matrix again"),
 Z("Mat3_Quat", "p:n4, v:n3", 24, "double l=std::sqrt(rdot(p,p,4)),q[4]={p[0]/l,p[1]/l,p[2]/l,p[3]/l}, M[9]; Mat3_Quat(M,q); " + ROTZ + "double k[3],kk[3],r[3],x[3]; rcross(k,q,v); rcross(kk,q,k); for(int i=0;i<3;++i){r[i]=v[i]+2*q[3]*k[i]+2*kk[i];} rmv(o,M,v,3); for(int i=0;i<3;++i){z[10+i]=o[i]-r[i];} QuatVec(x,q,v); CVec3d y=QuatVec3(q,V3(v)), w=Q4(q).RotateVector(V3(v)); for(int i=0;i<3;++i){z[13+i]=x[i]-r[i]; z[16+i]=y[i]-r[i]; z[19+i]=w[i]-r[i];} z[22]=0; z[23]=0;", "rotation by a unit quaternion"),
 Z("QuatConjVec", "p:n4, v:n3", 6, "double l=std::sqrt(rdot(p,p,4)),q[4]={p[0]/l,p[1]/l,p[2]/l,p[3]/l},x[3],y[3]; QuatVec(x,q,v); QuatConjVec(y,q,x); CQuatd c=Q4(q).conjugate(); CVec3d w=c.RotateVector(V3(x)); for(int i=0;i<3;++i){z[i]=y[i]-v[i]; z[3+i]=w[i]-v[i];}", "the conjugate undoes the rotation"),
 Z("QuatQuat", "p:n4, q:n4", 21, "double o[4],A[9],B[9],C[9],D[9]; QuatQuat(o,p,q); Mat3_Quat(A,p); Mat3_Quat(B,q); double l=std::sqrt(rdot(p,p,4)),m=std::sqrt(rdot(q,q,4)); double P[4]={p[0]/l,p[1]/l,p[2]/l,p[3]/l},Q[4]={q[0]/m,q[1]/m,q[2]/m,q[3]/m},R[4]; QuatQuat(R,P,Q); Mat3_Quat(A,P); Mat3_Quat(B,Q); Mat3_Quat(C,R); rmm(D,A,B,3); for(int i=0;i<9;++i){z[i]=C[i]-D[i];} CQuatd x=Q4(p)*Q4(q); for(int i=0;i<4;++i){z[9+i]=x.p[i]-o[i]; } double k[3]; rcross(k,p,q); for(int i=0;i<3;++i){z[13+i]=o[i]-(p[3]*q[i]+q[3]*p[i]+k[i]);} z[16]=o[3]-(p[3]*q[3]-rdot(p,q)); for(int i=17;i<21;++i){z[i]=0;}", "the product of quaternions composes the rotations"),
 Z("Inverse_Quat", "p:n4, q:n4", 11, "double i0[4],c[4]={p[0],p[1],p[2],p[3]},o[4]; Inverse_Quat(i0,c); QuatQuat(o,p,i0); z[0]=o[0]; z[1]=o[1]; z[2]=o[2]; z[3]=o[3]-1; double n[4]={p[0],p[1],p[2],p[3]}; Normalize_Quat(n); double l=std::sqrt(rdot(p,p,4)); for(int i=0;i<4;++i){z[4+i]=n[i]*l-p[i];} z[8]=Dot_Quat(p,q)-rdot(p,q,4); z[9]=Length_Quat(p)-l; z[10]=0;", "inverse, length and dot product of quaternions"),
 Z("Quat_Bryant", "a:n3", 9, "double q[4],M[9],X[9],Y[9],Z0[9],P[9],R[9]; Quat_Bryant(q,a[0],a[1],a[2]); Mat3_Quat(M,q); double c0=std::cos(a[0]),s0=std::sin(a[0]),c1=std::cos(a[1]),s1=std::sin(a[1]),c2=std::cos(a[2]),s2=std::sin(a[2]); double XX[9]={1,0,0,0,c0,-s0,0,s0,c0},YY[9]={c1,0,s1,0,1,0,-s1,0,c1},ZZ[9]={c2,-s2,0,s2,c2,0,0,0,1}; rmm(P,ZZ,YY,3); rmm(R,P,XX,3); for(int i=0;i<9;++i){z[i]=M[i]-R[i];}", "rotation about x, then y, then z"),
 Z("SphericalLinearInterp", "p:n4, q:n4, t:s", 8, "double l=std::sqrt(rdot(p,p,4)),m=std::sqrt(rdot(q,q,4)); double P[4]={p[0]/l,p[1]/l,p[2]/l,p[3]/l},Q[4]={q[0]/m,q[1]/m,q[2]/m,q[3]/m}; CQuatd a=SphericalLinearInterp(Q4(P),Q4(Q),0.0), b=SphericalLinearInterp(Q4(P),Q4(Q),1.0); for(int i=0;i<4;++i){z[i]=a.p[i]-P[i]; z[4+i]=(b.p[i]-Q[i])*(b.p[i]+Q[i]);}", "the interpolation starts and ends at its arguments"),
 Z("CMat3::SetRotMatrix_Quaternion", "p:n4", 18, "double M[9]; Mat3_Quat(M,p); CMat3d m; m.SetRotMatrix_Quaternion(p); CMat3d n=CMat3d::Quat(p); for(int i=0;i<9;++i){z[i]=m.p_[i]-M[i]; z[9+i]=n.p_[i]-M[i];}", "the same rotation from all interfaces"),
]))
A16 = lambda src: "for(int i=0;i<16;++i){z[i]=%s;} " % src
I.append((["mat4.h", "vec3.h", "quat.h", "mat3.h"], [
 Z("Inverse_Mat4", "m:n16", 32, "double o[16],p[16]; Inverse_Mat4(o,m); rmm(p,m,o,4); rid(z,p,4); CMat4d x=M4(m).Inverse(); rmm(p,m,x.mat,4); rid(z+16,p,4);", "the product of a matrix and its inverse is the identity"),
 Z("MatMat4", "a:n16, b:n16", 64, "double o[16],r[16]; rmm(r,a,b,4); MatMat4(o,a,b); CMat4d x=M4(a)*M4(b); double t[16]; Transpose_Mat4(t,a); CMat4d y=M4(a).transpose(); for(int i=0;i<16;++i){z[i]=o[i]-r[i]; z[16+i]=x.mat[i]-r[i]; z[32+i]=t[i]-a[i%4*4+i/4]; z[48+i]=y.mat[i]-a[i%4*4+i/4];}", "products and transposes of 4x4 matrices"),
 Z("MatVec4", "m:n16, a:n4", 8, "double o[4],r[4],T[16]; MatVec4(o,m,a); rmv(r,m,a,4); for(int i=0;i<4;++i){z[i]=o[i]-r[i];} rtr(T,m,4); rmv(r,T,a,4); VecMat4(o,a,m); for(int i=0;i<4;++i){z[4+i]=o[i]-r[i];}", "matrix times vector"),
 Z("Vec3_Mat4Vec3_Affine", "m:n16, a:n3", 12, "double r[3],o[3]; raff(r,m,a); Vec3_Mat4Vec3_Affine(o,m,a); for(int i=0;i<3;++i){z[i]=o[i]-r[i]-0*m[0];} double l[3]; for(int i=0;i<3;++i){l[i]=m[4*i]*a[0]+m[4*i+1]*a[1]+m[4*i+2]*a[2];} Mat4Vec3(o,m,a); CVec3d x=Mat4Vec3(m,V3(a)), y=M4(m).MultVec3(a); for(int i=0;i<3;++i){z[3+i]=o[i]-l[i]; z[6+i]=x[i]-l[i]; z[9+i]=y[i]-l[i];}", "affine and linear action"),
 Z("Vec3_Mat4Vec3_Homography", "m:n16, a:n3", 14, "double r[3],T[16],o[3]; rhom(r,m,a); auto h=Vec3_Mat4Vec3_Homography(m,a); CVec3d y=M4(m).MultVec3_Homography(a); auto p=Vec2_Mat4Vec3_Homography(m,a); rtr(T,m,4); Vec3_Vec3Mat4_Homography(o,a,T); for(int i=0;i<3;++i){z[i]=h[i]-r[i]; z[3+i]=y[i]-r[i]; z[6+i]=o[i]-r[i];} z[9]=p[0]-r[0]; z[10]=p[1]-r[1]; Vec3Mat4(o,a,T); for(int i=0;i<3;++i){z[11+i]=o[i]-(m[4*i]*a[0]+m[4*i+1]*a[1]+m[4*i+2]*a[2]);}", "homogeneous division by the fourth component"),
 Z("Mat4_AffineTranslation", "d:n3, a:n3, s:s", 18, "double m[16],o[3]; Mat4_AffineTranslation(m,d[0],d[1],d[2]); auto n=Mat4_AffineTranslation(d[0],d[1],d[2]); CMat4d k=CMat4d::Translation(d); raff(o,m,a); for(int i=0;i<3;++i){z[i]=o[i]-a[i]-d[i];} raff(o,n.data(),a); for(int i=0;i<3;++i){z[3+i]=o[i]-a[i]-d[i];} raff(o,k.mat,a); for(int i=0;i<3;++i){z[6+i]=o[i]-a[i]-d[i];} Mat4_AffineScale(m,s); raff(o,m,a); for(int i=0;i<3;++i){z[9+i]=o[i]-s*a[i];} auto t=k.GetTranslationComponent(); for(int i=0;i<3;++i){z[12+i]=t[i]-d[i];} z[15]=k.mat[15]-1; z[16]=n[15]-1; z[17]=k.mat[12]+k.mat[13]+k.mat[14]+n[12]+n[13]+n[14];", "translation and scaling matrices"),
 Z("Mat4_ScaleRotTrans", "s:s, p:n4, t:n3, a:n3", 4, "double l=std::sqrt(rdot(p,p,4)),q[4]={p[0]/l,p[1]/l,p[2]/l,p[3]/l},m[16],o[3],r[3],R[9]; Mat4_ScaleRotTrans(m,s,q,t); raff(o,m,a); Mat3_Quat(R,q); rmv(r,R,a,3); for(int i=0;i<3;++i){z[i]=o[i]-(s*r[i]+t[i]);} z[3]=m[15]-1;", "scale, then rotate, then translate"),
 Z("Mat4_AffineQuaternion", "p:n4", 48, "double m[16],R[9],n[16]; Mat4_AffineQuaternion(m,p); Mat3_Quat(R,p); double e[16]={R[0],R[1],R[2],0,R[3],R[4],R[5],0,R[6],R[7],R[8],0,0,0,0,1}; CMat4d k=CMat4d::Quat(p); double c[4]={-p[0],-p[1],-p[2],p[3]}; Mat4_AffineQuaternionConjugate(n,c); for(int i=0;i<16;++i){z[i]=m[i]-e[i]; z[16+i]=k.mat[i]-e[i]; z[32+i]=n[i]-e[i];}", "affine matrix of a quaternion"),
 Z("Mat4_Mat3", "a:n9, t:n3", 41, "double k[9],m[16]; for(int i=0;i<9;++i){k[i]=a[i];} Mat4_Mat3(m,k); CMat4d n=CMat4d::Mat3(a); double e[16]={a[0],a[1],a[2],0,a[3],a[4],a[5],0,a[6],a[7],a[8],0,0,0,0,1}; for(int i=0;i<16;++i){z[i]=m[i]-e[i]; z[16+i]=n.mat[i]-e[i];} auto g=n.GetMat3(); for(int i=0;i<9;++i){z[32+i]=g[i]-a[i];}", "linear part of an affine matrix"),
 Z("Mat4_AffineTrans_RotTransl", "r:n9, t:n3, a:n3", 4, "double m[16],o[3],T[16],x[3]; Mat4_AffineTrans_RotTransl(m,r,t); rtr(T,m,4); raff(o,T,a); rmv(x,r,a,3); for(int i=0;i<3;++i){z[i]=o[i]-x[i]-t[i];} z[3]=T[15]-1;", "rotates then translates (column-major)"),
 Z("Translate_Mat4Affine", "m:n16, d:n3, a:n3", 3, "double M[16]; for(int i=0;i<12;++i){M[i]=m[i];} M[12]=M[13]=M[14]=0; M[15]=1; double o[3],r[3]; raff(r,M,a); Translate_Mat4Affine(M,d); raff(o,M,a); for(int i=0;i<3;++i){z[i]=o[i]-r[i]-d[i];}", "translation after the map"),
 Z("Rotate_Mat4AffineRodriguez", "m:n16, d:n3, a:n3", 3, "double M[16]; for(int i=0;i<12;++i){M[i]=m[i];} M[12]=M[13]=M[14]=0; M[15]=1; double o[3],r[3],x[3]; raff(r,M,a); Rotate_Mat4AffineRodriguez(M,d); raff(o,M,a); auto R=Mat4_AffineRotationRodriguez(d[0],d[1],d[2]); raff(x,R.data(),r); for(int i=0;i<3;++i){z[i]=o[i]-x[i];}", "rotation after the map"),
 Z("Mat4_AffineLookAt", "e:n3, c:n3, u:n3", 11, "double m[16]; Mat4_AffineLookAt(m,e[0],e[1],e[2],c[0],c[1],c[2],u[0],u[1],u[2]); double *M=m; double R[9]={M[0],M[1],M[2],M[4],M[5],M[6],M[8],M[9],M[10]},T[9],P[9],o[3]; rtr(T,R,3); rmm(P,R,T,3); z[0]=P[1]; z[1]=P[2]; z[2]=P[5]; z[3]=P[0]-1; z[4]=P[4]-1; z[5]=P[8]-1; raff(o,M,e); z[6]=o[0]; z[7]=o[1]; z[8]=o[2]; raff(o,M,c); z[9]=o[0]; z[10]=o[1];", "the camera frame is orthonormal, the eye is at its origin and the target on its z axis"),
 Z("CMat4::Skew", "a:n3, b:n3", 3, "auto M=CMat4d::Skew(a).GetMat3(); double o[3],r[3]; rmv(o,M.data(),b,3); rcross(r,a,b); for(int i=0;i<3;++i){z[i]=o[i]-r[i];}", "spin matrix"),
]))


# ---------------------------------------------------------------- members and operators of the vector, matrix and quaternion classes
SQ = "double t=r*r/(r*r+s*s), u=p*p/(p*p+q*q); "
I.append((["vec2.h"], [
 Z("Mat3Vec2_AffineProjection", "m:n9, a:n2", 2, "CVec2d x=V2(a).Mat3Vec2_AffineProjection(m); double w=m[6]*a[0]+m[7]*a[1]+m[8]; for(int i=0;i<2;++i){z[i]=x[i]*w-(m[3*i]*a[0]+m[3*i+1]*a[1]+m[3*i+2]);}", "projective map of the plane"),
 Z("CVec2 operators", "a:v2, b:v2, s:s", 26, "CVec2d A=V2(a),B=V2(b); CVec2d x[11]={A+B,A-B,-A,s*A,A*s,A/s,A,A,A,A,A}; x[6]+=B; x[7]-=B; x[8]*=s; x[9]/=s; x[10].setZero(); auto c=A.cast<double>(); double e[12][2]={{a[0]+b[0],a[1]+b[1]},{a[0]-b[0],a[1]-b[1]},{-a[0],-a[1]},{s*a[0],s*a[1]},{s*a[0],s*a[1]},{a[0]/s,a[1]/s},{a[0]+b[0],a[1]+b[1]},{a[0]-b[0],a[1]-b[1]},{s*a[0],s*a[1]},{a[0]/s,a[1]/s},{0,0},{a[0],a[1]}}; for(int k=0;k<11;++k){put2(z+2*k,x[k]-CVec2d(e[k]));} z[22]=c[0]-a[0]; z[23]=c(1)-a[1]; z[24]=Dot2(a,b)-rdot(a,b,2); z[25]=SquareDistance2(a,b)-(a[0]-b[0])*(a[0]-b[0])-(a[1]-b[1])*(a[1]-b[1])+0*s;", "componentwise arithmetic"),
 Z("IsCrossLines(crossing)", "a:p2, b:p2, c:p2, p:s, q:s", 1, "double x[2],d[2]; double u=p*p/(p*p+q*q); for(int i=0;i<2;++i){x[i]=a[i]+u*(b[i]-a[i]); d[i]=x[i]+p*p*(x[i]-c[i]);} z[0]=(IsCrossLines(a,b,c,d)?0:1)+%s+%s;" % (POS("rarea2(a,b,c)*rarea2(a,b,c)"), POS("p*p+q*q")), "segments through a common inner point cross"),
 Z("IsCrossLines(apart)", "a:p2, b:p2, c:p2, p:s, q:s", 4, "double x[2],d[2]; double u=p*p/(p*p+q*q); for(int i=0;i<2;++i){x[i]=a[i]+u*(b[i]-a[i]); d[i]=x[i]+u*(c[i]-x[i]);} double g=%s+%s; z[0]=(IsCrossLines(a,b,c,d)?1:0)+g; z[1]=(IsCrossLines(c,d,a,b)?1:0)+g; z[2]=(IsCrossLines(b,a,d,c)?1:0)+g; for(int i=0;i<2;++i){x[i]=b[i]+p*p*(b[i]-a[i]); d[i]=x[i]+q*q*(x[i]-c[i]);} z[3]=(IsCrossLines(c,d,a,b)?1:0)+g;" % (POS("rarea2(a,b,c)*rarea2(a,b,c)"), POS("(p*p+q*q)")+"+"+POS("1+p*p")), "segments that end before or pass beside each other do not cross"),
]))
I.append((["vec3.h", "vec3_funcs.h"], [
 Z("CVec3 ==/cast", "a:v3, b:v3, s:s, t:s", 10, "CVec3d A=V3(a),B=V3(b),C=A; z[0]=(A==C)?0:1; z[1]=(A!=C)?1:0; auto c=A.cast<double>(); put3(z+2,c-A); CVec3d D; D.SetVector(s,t,s*t); z[5]=D.x-s; z[6]=D.y-t; z[7]=D.z-s*t; D.setZero(); z[8]=D.x+D.y+D.z; std::vector<double> v=B.stlvec(); z[9]=v[0]-b[0]+2*(v[1]-b[1])+3*(v[2]-b[2]);", "components"),
 Z("CVec3 == (other)", "a:v3, s:s", 3, "double g=0*s*std::sqrt(s*s); for(int i=0;i<3;++i){ double b[3]={a[0],a[1],a[2]}; b[i]+=s; z[i]=((V3(a)==V3(b))?1:0)+((V3(a)!=V3(b))?0:1)+g; }", "vectors that differ in a component differ"),
]))
I.append((["mat2.h", "vec2.h"], [
 Z("CMat2 operators", "a:n4, b:n4, s:s, v:n2", 58, "CMat2d A(a[0],a[1],a[2],a[3]),B(b[0],b[1],b[2],b[3]); CMat2d x[10]={A+B,A-B,-A,A,A,A,A,A.transpose(),A,CMat2d(s)}; x[3]+=B; x[4]-=B; x[5]*=s; x[6]/=s; x[8].transposeInPlace(); double r[4]; rmm(r,a,b,2); CMat2d p=A*B, q=s*A, w=s*A; CMat2d o=A; o.setZero(); for(int i=0;i<4;++i){ int t=i%2*2+i/2; z[i]=x[0].p[i]-a[i]-b[i]; z[4+i]=x[1].p[i]-a[i]+b[i]; z[8+i]=x[2].p[i]+a[i]; z[12+i]=x[3].p[i]-a[i]-b[i]; z[16+i]=x[4].p[i]-a[i]+b[i]; z[20+i]=x[5].p[i]-s*a[i]; z[24+i]=x[6].p[i]*s-a[i]; z[28+i]=x[7].p[i]-a[t]; z[32+i]=x[8].p[i]-a[t]; z[36+i]=p.p[i]-r[i]; z[40+i]=q.p[i]-s*a[i]; z[44+i]=w.p[i]-s*a[i]; z[48+i]=o.p[i]; z[52+i]=x[9].p[i]-(i%3==0?s:0);} A.multiply_vec2(z+56,v); double y[2]; rmv(y,a,v,2); z[56]-=y[0]; z[57]-=y[1];", "arithmetic of matrices"),
 Z("CMat2::determinant", "a:n4", 1, "z[0]=CMat2d(a[0],a[1],a[2],a[3]).determinant()-a[0]*a[3]+a[1]*a[2];", "determinant"),
]))
I.append((["mat3.h", "mat3_funcs.h", "vec3.h", "quat.h"], [
 Z("CMat3 operators", "a:n9, b:n9, s:s", 99, "CMat3d A=M3(a),B=M3(b); CMat3d x[11]={A+B,A-B,-A,+A,A,A,A,A,A*s,s*A,A/s}; x[4]+=B; x[5]-=B; x[6]*=s; x[7]/=s; for(int i=0;i<9;++i){ double e[11]={a[i]+b[i],a[i]-b[i],-a[i],a[i],a[i]+b[i],a[i]-b[i],s*a[i],a[i]/s,s*a[i],s*a[i],a[i]/s}; for(int k=0;k<11;++k){z[9*k+i]=x[k].p_[i]-e[k];} }", "arithmetic of matrices"),
 Z("CMat3 members", "a:n9, m:n16, y:n6, s:s", 97, "double o[16]; for(int i=0;i<16;++i){o[i]=m[i];} M3(a).CopyToMat4(o); for(int i=0;i<16;++i){z[i]=o[i]-((i%4<3&&i<12)?a[i/4*3+i%4]:m[i]);} M3(a).AffineMatrixTrans(o); for(int i=0;i<16;++i){z[16+i]=o[i]-((i%4<3&&i<12)?a[i%4*3+i/4]:(i==15?1.:0.));} double p[9],q[9]; M3(a).GetElements(p); M3(a).CopyTo(q); CMat3d n; n.SetMat4(m); CMat3d S; S.SetSymetric(y); const int k[9]={0,5,4,5,1,3,4,3,2}; CMat3d d(s,2*s,3*s), e(s), f(s,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]); for(int i=0;i<9;++i){z[32+i]=p[i]-a[i]; z[41+i]=q[i]-a[i]; z[50+i]=n.p_[i]-m[i/3*4+i%3]; z[59+i]=S.p_[i]-y[k[i]]; z[68+i]=M3(a).Get(i/3,i%3)-a[i]; z[77+i]=f.p_[i]-(i?a[i-1]:s); z[86+i]=d.p_[i]-(i%4==0?(i/4+1)*s:0);} z[95]=M3(a)(1,2)-a[5]; z[96]=0*e.p_[0];", "elements in row-major order"),
 Z("CMat3::Identity/Zero", "s:s", 27, "CMat3d a=CMat3d::Identity(s), b, c=CMat3d::Zero(); b.SetIdentity(s); for(int i=0;i<9;++i){z[i]=a.p_[i]-(i%4==0?s:0); z[9+i]=b.p_[i]-(i%4==0?s:0); z[18+i]=c.p_[i];}", "multiples of the identity"),
 Z("SetRotMatrix_BryantAngle", "a:n3", 9, "CMat3d m; m.SetRotMatrix_BryantAngle(a[0],a[1],a[2]); double P[9],R[9]; double c0=std::cos(a[0]),s0=std::sin(a[0]),c1=std::cos(a[1]),s1=std::sin(a[1]),c2=std::cos(a[2]),s2=std::sin(a[2]); double XX[9]={1,0,0,0,c0,-s0,0,s0,c0},YY[9]={c1,0,s1,0,1,0,-s1,0,c1},ZZ[9]={c2,-s2,0,s2,c2,0,0,0,1}; rmm(P,ZZ,YY,3); rmm(R,P,XX,3); for(int i=0;i<9;++i){z[i]=m.p_[i]-R[i];}", "rotation about x, then y, then z"),
 Z("Quaternion_EulerAngle", "a:n3", 27, "double c[3],s[3],P[9],R[9],M[9],q[4]; for(int i=0;i<3;++i){c[i]=std::cos(a[i]); s[i]=std::sin(a[i]);} const int ax[3][3]={{2,1,0},{2,0,1},{0,1,0}}; for(int k=0;k<3;++k){ Quaternion_EulerAngle(q,std::array<double,3>{a[0],a[1],a[2]},std::array<int,3>{ax[k][0],ax[k][1],ax[k][2]}); Mat3_Quat(M,q); for(int i=0;i<9;++i){R[i]=(i%4==0)?1:0;} for(int i=0;i<3;++i){ int x=ax[k][i],y=(x+1)%3,w=(x+2)%3; double T[9]={0,0,0,0,0,0,0,0,0}; T[4*x]=1; T[4*y]=c[i]; T[4*w]=c[i]; T[3*y+w]=-s[i]; T[3*w+y]=s[i]; rmm(P,R,T,3); for(int j=0;j<9;++j){R[j]=P[j];} } for(int i=0;i<9;++i){z[9*k+i]=M[i]-R[i];} }", "product of the rotations about the axes in the order given"),
 Z("EulerAngle_Mat3", "a:n3", 18, "double c[3],s[3],P[9],R[9],M[9],e[3]; const int ax[2][3]={{2,1,0},{2,0,1}}; for(int k=0;k<2;++k){ for(int h=0;h<2;++h){ for(int i=0;i<3;++i){c[i]=std::cos(h?e[i]:a[i]); s[i]=std::sin(h?e[i]:a[i]);} for(int i=0;i<9;++i){R[i]=(i%4==0)?1:0;} for(int i=0;i<3;++i){ int x=ax[k][i],y=(x+1)%3,w=(x+2)%3; double T[9]={0,0,0,0,0,0,0,0,0}; T[4*x]=1; T[4*y]=c[i]; T[4*w]=c[i]; T[3*y+w]=-s[i]; T[3*w+y]=s[i]; rmm(P,R,T,3); for(int j=0;j<9;++j){R[j]=P[j];} } if(!h){ for(int j=0;j<9;++j){M[j]=R[j];} EulerAngle_Mat3(e,M,std::array<int,3>{ax[k][0],ax[k][1],ax[k][2]}); } } for(int i=0;i<9;++i){z[9*k+i]=R[i]-M[i];} }", "Euler angles of a rotation give the rotation again"),
 Z("Mat3_AffineTranslation", "d:n2, a:n2, m:n9", 10, "double T[9],y[2],w=m[6]*a[0]+m[7]*a[1]+m[8]; Mat3_AffineTranslation(T,d); Vec2_Mat3Vec2_Homography(y,T,a); for(int i=0;i<2;++i){z[i]=y[i]-a[i]-d[i];} Vec2_Mat3Vec2_Homography(y,m,a); auto x=Vec2_Mat3Vec2_Homography(m,a); double u[2]; Vec2_Mat3Vec2_AffineDirection(u,m,a); double c[9]; Copy_Mat3(c,m); z[8]=0; z[9]=0; for(int i=0;i<2;++i){ double e=m[3*i]*a[0]+m[3*i+1]*a[1]+m[3*i+2]; z[2+i]=y[i]*w-e; z[4+i]=x[i]*w-e; z[6+i]=u[i]-m[3*i]*a[0]-m[3*i+1]*a[1];} for(int i=0;i<9;++i){z[8]+=(i+1)*(c[i]-m[i]);}", "projective maps of the plane"),
]))
I.append((["mat4.h", "vec3.h", "quat.h", "mat3.h"], [
 Z("CMat4 operators", "a:n16, b:n16, m:n16", 96, "CMat4d p=M4(a)+M4(b), q=M4(a)-M4(b), c=M4(a).cast<double>(), i0=CMat4d::Identity(), i1; i1.SetIdentity(); double i2[16]; Mat4_Identity(i2); for(int i=0;i<16;++i){ double e=(i%5==0)?1:0; z[i]=p.mat[i]-a[i]-b[i]; z[16+i]=q.mat[i]-a[i]+b[i]; z[32+i]=c.mat[i]-a[i]+0*m[0]; z[48+i]=i0.mat[i]-e; z[64+i]=i1.mat[i]-e; z[80+i]=i2[i]-e; }", "arithmetic of matrices"),
 Z("CMat4 members", "a:n16, d:n3, x:n3, y:n3, w:n3, v:n3, s:s", 112, "CMat4d t; t.SetAffineTranslate(d[0],d[1],d[2]); CMat4d sc,S=CMat4d::ScaleXYZ(d[0],d[1],d[2]),T=CMat4d::Translation(d),AS=CMat4d::AffineScale(s); sc.SetScale(d[0],d[1],d[2]); CMat4d X=CMat4d::AffineAxisTransform({x[0],x[1],x[2]},{y[0],y[1],y[2]},{w[0],w[1],w[2]}); double u[16]; M4(a).CopyTo(u); for(int i=0;i<16;++i){ int r=i/4,c=i%4; double e=(r==c)?1:0; z[i]=t.mat[i]-(c==3&&r<3?d[r]:e); z[16+i]=T.mat[i]-(c==3&&r<3?d[r]:e); z[32+i]=sc.mat[i]-(r==c&&r<3?d[r]:e); z[48+i]=S.mat[i]-(r==c&&r<3?d[r]:e); z[64+i]=AS.mat[i]-(r==c&&r<3?s:e); z[80+i]=X.mat[i]-((r<3&&c<3)?(c==0?x[r]:(c==1?y[r]:w[r])):e); z[96+i]=u[i]-a[i]; } auto g=M4(a).GetTranslationComponent(); auto h=M4(a).Vec2_MultVec3_Homography(v); auto k=M4(a).GetMat3(); double o[3]; rhom(o,a,v); z[96]+=g[0]-a[3]; z[97]+=g[1]-a[7]; z[98]+=g[2]-a[11]; z[99]+=h[0]-o[0]; z[100]+=h[1]-o[1]; for(int i=0;i<9;++i){z[101+i]+=k[i]-a[i/3*4+i%3];}", "elements in row-major order"),
 Z("Mat4_AffineProjectionOrtho", "l:n3, h:n3, r:n3", 6, "double m[16],o[3],e[3]; Mat4_AffineProjectionOrtho(m,l[0],h[0],l[1],h[1],l[2],h[2]); CMat4d n=CMat4d::AffineOrthogonalProjection(l[0],h[0],l[1],h[1],l[2],h[2]); for(int i=0;i<3;++i){e[i]=l[i]+r[i]*(h[i]-l[i]);} rhom(o,m,e); for(int i=0;i<3;++i){z[i]=o[i]-(2*r[i]-1);} rhom(o,n.mat,e); for(int i=0;i<3;++i){z[3+i]=o[i]-(2*r[i]-1);}", "the box is mapped onto the cube from -1 to 1"),
 Z("Mat4_AffineProjectionFrustum", "f:s, a:s, l:s, h:s, r:n2", 6, "double m[16],o[3]; Mat4_AffineProjectionFrustum(m,f,a,l,h); double t=std::sin(f/2)/std::cos(f/2); for(int k=0;k<2;++k){ double d=k?h:l, e[3]={r[0]*a*t*(-d),r[1]*t*(-d),d}; rhom(o,m,e); z[3*k]=o[0]-r[0]; z[3*k+1]=o[1]-r[1]; z[3*k+2]=o[2]-(2*k-1); }", "the frustum is mapped onto the cube from -1 to 1"),
 Z("RayFromInverseMvpMatrix", "m:n16", 7, "double i[16]; Inverse_Mat4(i,m); auto r=RayFromInverseMvpMatrix(i,5,1,8,4); const double px=0.375,py=-0.25; double a[3],b[3],x[3],e[3]={px,py,-1}; put3(a,r.first); put3(b,r.second); rhom(x,m,a); z[0]=x[0]-px; z[1]=x[1]-py; z[2]=x[2]-1; rhom(x,i,e); rsub(e,x,a); double l=std::sqrt(rdot(e,e)); for(int k=0;k<3;++k){z[3+k]=b[k]*l-e[k];} z[6]=0;", "the ray runs along the line of sight of the pixel"),
 Z("CMat4::SetQuaternion", "p:n4, a:n16", 16, "CMat4d m=M4(a), n=CMat4d::Quat(p); m.SetQuaternion(p); for(int i=0;i<16;++i){z[i]=m.mat[i]-n.mat[i];}", "as the constructing function"),
]))
I.append((["quat.h", "vec3.h"], [
 Z("CQuat operators", "p:n4, q:n4, s:s", 34, "CQuatd a=Q4(p)+Q4(q), b=Q4(p)-Q4(q), c=Q4(p)*s, d=s*Q4(p), e=Q4(p)/s, f=Q4(p).cast<double>(), g=CQuatd::Identity(); double h[4]; Quat_Identity(h); auto m=Mult_QuatQuat(p,q); double o[4]; QuatQuat(o,p,q); for(int i=0;i<4;++i){ z[i]=a.p[i]-p[i]-q[i]; z[4+i]=b.p[i]-p[i]+q[i]; z[8+i]=c.p[i]-s*p[i]; z[12+i]=d.p[i]-s*p[i]; z[16+i]=e.p[i]-p[i]/s; z[20+i]=f.p[i]-p[i]; z[24+i]=g.p[i]-(i==3?1:0); z[28+i]=h[i]-(i==3?1:0); } z[32]=m[0]-o[0]+2*(m[1]-o[1])+3*(m[2]-o[2])+5*(m[3]-o[3]); z[33]=Dot_Quat(p,q)-rdot(p,q,4);", "arithmetic of quaternions"),
 Z("SetSmallerRotation", "p:n3, w:s", 8, "double a[4]={p[0],p[1],p[2],w*w}, b[4]={p[0],p[1],p[2],-w*w}; CQuatd x=Q4(a), y=Q4(b); x.SetSmallerRotation(); y.SetSmallerRotation(); double g=%s; for(int i=0;i<4;++i){ z[i]=x.p[i]-a[i]+g; z[4+i]=y.p[i]+b[i]+g; }" % POS("w*w"), "the sign is turned where the real part is negative"),
]))

# ---------------------------------------------------------------- triangles, planes, lines, edges
KKT = "for(int k=0;k<3;++k){ double e[3]; rsub(e,v[k],x); z[%d+k]=w[k]*rdot(g,e); } "
TRIX = "double w[3]={r0,r1,1-r0-r1}; const double *v[3]={a,b,c}; double g[3]; rsub(g,x,p); for(int i=0;i<3;++i){z[i]=w[0]*a[i]+w[1]*b[i]+w[2]*c[i]-x[i];} " + KKT % 3
OO = "double p[3]={0,0,0}; "
I.append((["geo_tri.h", "geo_edge.h", "geo_ccd.h", "geo_aabb.h", "geosolidelm_v3.h", "vec2.h", "vec3.h", "mat3.h"], [
 Z("isIntersectTriPair(segment)", "a:n6p3", 5, "auto &t=*new std::vector<unsigned int>{0,1,2,3,4,5}; auto &v=*new std::vector<double>{%s}; CVec3d P,Q; bool f=isIntersectTriPair(P,Q,0,1,t,v); double n[2][3],p[2][3],e[3]; rnormal(n[0],a,a+3,a+6); rnormal(n[1],a+9,a+12,a+15); put3(p[0],P); put3(p[1],Q); z[4]=0; for(int i=0;i<2;++i){ for(int j=0;j<2;++j){ rsub(e,p[i],a+9*j); double h=rdot(e,n[j]); z[2*i+j]=f?h:0; } }" % ",".join("a[%d]" % i for i in range(18)), "the ends of the common segment lie in both planes"),
 Z("isIntersectTriPair(apart)", "a:n3p3, b:n3p3, h:n3", 2, "double n[3]; rnormal(n,a,a+3,a+6); double q[9]; for(int k=0;k<3;++k){ double e[3]; rsub(e,b+3*k,a); double d=rdot(e,n)/rdot(n,n); for(int i=0;i<3;++i){q[3*k+i]=b[3*k+i]-(d-h[k]*h[k])*n[i];} } auto &t=*new std::vector<unsigned int>{0,1,2,3,4,5}; auto &v=*new std::vector<double>{%s,%s}; CVec3d P,Q; double g=%s; z[0]=(isIntersectTriPair(P,Q,0,1,t,v)?1:0)+g; z[1]=(isIntersectTriPair(P,Q,1,0,t,v)?1:0)+g;" % (",".join("a[%d]" % i for i in range(9)), ",".join("q[%d]" % i for i in range(9)), POS("rdot(n,n)")), "triangles on one side of each other do not meet"),
 Z("IsIntersect_Edge2_Edge2(apart)", "a:p2, b:p2, c:p2, p:s, q:s", 4, "double x[2],d[2]; double u=p*p/(p*p+q*q); for(int i=0;i<2;++i){x[i]=a[i]+u*(b[i]-a[i]); d[i]=x[i]+u*(c[i]-x[i]);} double g=%s; z[0]=(IsIntersect_Edge2_Edge2(V2(a),V2(b),V2(c),V2(d))?1:0)+g; z[1]=(IsIntersect_Edge2_Edge2(V2(c),V2(d),V2(a),V2(b))?1:0)+g; z[2]=(IsIntersect_Edge2_Edge2(V2(b),V2(a),V2(d),V2(c))?1:0)+g; for(int i=0;i<2;++i){x[i]=b[i]+p*p*(b[i]-a[i]); d[i]=x[i]+q*q*(x[i]-c[i]);} z[3]=(IsIntersect_Edge2_Edge2(V2(c),V2(d),V2(a),V2(b))?1:0)+g;" % (POS("p*p+q*q") + "+" + POS("1+p*p")), "segments that end before or pass beside each other do not meet"),
 Z("Distance_Edge2_Edge2", "a:p2, b:p2, c:p2, d:p2", 1, "double D=Distance_Edge2_Edge2(V2(a),V2(b),V2(c),V2(d)); double x=Distance_Edge_Point(V2(a),V2(c),V2(d)),y=Distance_Edge_Point(V2(b),V2(c),V2(d)),u=Distance_Edge_Point(V2(c),V2(a),V2(b)),w=Distance_Edge_Point(V2(d),V2(a),V2(b)); z[0]=(D+1)*(D-x)*(D-y)*(D-u)*(D-w);", "the distance of one end to the other segment, or -1 where they meet"),
 Z("FindCoplanerInterp(ends)", "a:n4p3, b:n4p3, r:n2", 4, "double q[3]; for(int i=0;i<3;++i){q[i]=a[i]+r[0]*(a[3+i]-a[i])+r[1]*(a[6+i]-a[i]);} double t=3; bool f=FindCoplanerInterp(t,V3(a),V3(a+3),V3(a+6),V3(q),V3(b),V3(b+3),V3(b+6),V3(b+9)); z[0]=f?0:1; z[1]=t; t=3; f=FindCoplanerInterp(t,V3(b),V3(b+3),V3(b+6),V3(b+9),V3(a),V3(a+3),V3(a+6),V3(q)); z[2]=f?0:1; z[3]=t-1;", "points in one plane at the start or the end"),
 Z("Nearest_LineSeg_LineSeg_CCD_Iteration", "s:n3, a:n4p3, b:n4p3", 3, "double p[3]={s[0],s[1],s[2]}; auto X=[&](const double *c,double u,double w,double *o){for(int i=0;i<3;++i){o[i]=(1-u)*((1-w)*c[i]+w*c[3+i])+u*((1-w)*c[6+i]+w*c[9+i]);}}; double D=Nearest_LineSeg_LineSeg_CCD_Iteration(p,V3(a),V3(a+3),V3(a+6),V3(a+9),V3(b),V3(b+3),V3(b+6),V3(b+9),1); double v[3],e[3],ds[3],dt[3],du[3],su[3],tu[3]; X(a,s[0],s[2],v); X(b,s[1],s[2],e); rsub(v,v,e); for(int i=0;i<3;++i){ double A=a[i],B=a[3+i],C=a[6+i],E=a[9+i],F=b[i],G=b[3+i],H=b[6+i],I=b[9+i],u=s[2]; su[i]=(E-C)-(B-A); tu[i]=-((I-H)-(G-F)); ds[i]=C-A+u*su[i]; dt[i]=-(H-F)+u*tu[i]; du[i]=(1-s[0])*(B-A)+s[0]*(E-C)-(1-s[1])*(G-F)-s[1]*(I-H); } double J[9]={rdot(ds,ds),rdot(ds,dt),rdot(ds,du)+rdot(v,su),0,rdot(dt,dt),rdot(dt,du)+rdot(v,tu),0,0,rdot(du,du)}; double eps=(J[0]+J[4]+J[8])*1.0e-10+1.0e-20; J[3]=J[1]; J[6]=J[2]; J[7]=J[5]; J[0]+=eps; J[4]+=eps; J[8]+=eps; double R[3]={rdot(v,ds),rdot(v,dt),rdot(v,du)}, Jd=rdet3(J); for(int k=0;k<3;++k){ double M[9]; for(int i=0;i<9;++i){M[i]=(i%3==k)?R[i/3]:J[i];} z[k]=p[k]*(p[k]-1)*((s[k]-p[k])*Jd-rdet3(M)); } z[0]+=0*D;", "a Newton step of the squared distance, clamped to the segments"),
 Z("iteration_barycentricCoord_Origin_Solid", "r:n3, q:v3, a:v3, b:v3, c:v3, w:s", 3, "double r0=r[0],r1=r[1],r2=r[2]; iteration_barycentricCoord_Origin_Solid(r0,r1,r2,V3(q),V3(a),V3(b),V3(c),w); for(int i=0;i<3;++i){z[i]=(r0-r[0])*a[i]+(r1-r[1])*b[i]+(r2-r[2])*c[i]+w*q[i];}", "the step moves the linearised position to the origin"),
 Z("IsContact_Orgin_AabbOfPoint3", "a:n3p3, h:n9, d:s", 7, "double D=d*d,g=0; double x[9]; for(int k=0;k<6;++k){ int m=k/2; double s=(k%2)?1:-1; for(int i=0;i<9;++i){x[i]=(i%3==m)?s*(D+h[i]*h[i]):a[i];} z[k]=IsContact_Orgin_AabbOfPoint3(V3(x+0),V3(x+3),V3(x+6),D)?1:0; } for(int i=0;i<9;++i){x[i]=((i/3+i%3)%2?1:-1)*(h[0]*h[0]+D);} z[6]=IsContact_Orgin_AabbOfPoint3(V3(x+0),V3(x+3),V3(x+6),D)?0:1; for(int i=0;i<7;++i){z[i]+=0*std::sqrt(h[0]*h[0]+2*D);}", "boxes beside the origin and around it"),
 Z("IsContact_Orgin_AabbOfPoint4", "a:n4p3, h:n12, d:s", 7, "double D=d*d,g=0; double x[12]; for(int k=0;k<6;++k){ int m=k/2; double s=(k%2)?1:-1; for(int i=0;i<12;++i){x[i]=(i%3==m)?s*(D+h[i]*h[i]):a[i];} z[k]=IsContact_Orgin_AabbOfPoint4(V3(x+0),V3(x+3),V3(x+6),V3(x+9),D)?1:0; } for(int i=0;i<12;++i){x[i]=((i/3+i%3)%2?1:-1)*(h[0]*h[0]+D);} z[6]=IsContact_Orgin_AabbOfPoint4(V3(x+0),V3(x+3),V3(x+6),V3(x+9),D)?0:1; for(int i=0;i<7;++i){z[i]+=0*std::sqrt(h[0]*h[0]+2*D);}", "boxes beside the origin and around it"),
 Z("IsContact_Orgin_AabbOfPoint5", "a:n5p3, h:n15, d:s", 7, "double D=d*d,g=0; double x[15]; for(int k=0;k<6;++k){ int m=k/2; double s=(k%2)?1:-1; for(int i=0;i<15;++i){x[i]=(i%3==m)?s*(D+h[i]*h[i]):a[i];} z[k]=IsContact_Orgin_AabbOfPoint5(V3(x+0),V3(x+3),V3(x+6),V3(x+9),V3(x+12),D)?1:0; } for(int i=0;i<15;++i){x[i]=((i/3+i%3)%2?1:-1)*(h[0]*h[0]+D);} z[6]=IsContact_Orgin_AabbOfPoint5(V3(x+0),V3(x+3),V3(x+6),V3(x+9),V3(x+12),D)?0:1; for(int i=0;i<7;++i){z[i]+=0*std::sqrt(h[0]*h[0]+2*D);}", "boxes beside the origin and around it"),
 Z("IsContact_Orgin_AabbOfPoint6", "a:n6p3, h:n18, d:s", 7, "double D=d*d,g=0; double x[18]; for(int k=0;k<6;++k){ int m=k/2; double s=(k%2)?1:-1; for(int i=0;i<18;++i){x[i]=(i%3==m)?s*(D+h[i]*h[i]):a[i];} z[k]=IsContact_Orgin_AabbOfPoint6(V3(x+0),V3(x+3),V3(x+6),V3(x+9),V3(x+12),V3(x+15),D)?1:0; } for(int i=0;i<18;++i){x[i]=((i/3+i%3)%2?1:-1)*(h[0]*h[0]+D);} z[6]=IsContact_Orgin_AabbOfPoint6(V3(x+0),V3(x+3),V3(x+6),V3(x+9),V3(x+12),V3(x+15),D)?0:1; for(int i=0;i<7;++i){z[i]+=0*std::sqrt(h[0]*h[0]+2*D);}", "boxes beside the origin and around it"),

]))
I.append((["geo_tri.h", "geo_plane.h", "geo_line.h", "geo_edge.h", "vec2.h", "vec3.h", "mat3.h"], [
 Z("Nearest_Triangle3_Point3", "p:p3, a:p3, b:p3, c:p3", 6, "double x[3],r0,r1; Nearest_Triangle3_Point3(x,r0,r1,p,a,b,c); " + TRIX, "the weights give the point, and the way to it is orthogonal to the part of the triangle it lies on"),
 Z("Nearest_Triangle3_Point3(inside)", "r:n3, a:p3, b:p3, c:p3, h:s", 5, "double q=r[0]*r[0]+r[1]*r[1]+r[2]*r[2], w[3]={r[0]*r[0]/q,r[1]*r[1]/q,r[2]*r[2]/q}, n[3], p[3], y[3], x[3],r0,r1; rnormal(n,a,b,c); for(int i=0;i<3;++i){y[i]=w[0]*a[i]+w[1]*b[i]+w[2]*c[i]; p[i]=y[i]+h*n[i];} Nearest_Triangle3_Point3(x,r0,r1,p,a,b,c); for(int i=0;i<3;++i){z[i]=x[i]-y[i];} z[3]=r0-w[0]; z[4]=r1-w[1]+%s;" % POS("q"), "a point above the inside of the triangle projects to it"),
 Z("Nearest_Triangle3_Point3(in its plane)", "r:n3, a:p3, b:p3, c:p3", 5, "double q=r[0]*r[0]+r[1]*r[1]+r[2]*r[2], w[3]={r[0]*r[0]/q,r[1]*r[1]/q,r[2]*r[2]/q}, n[3], p[3], y[3], x[3],r0,r1; rnormal(n,a,b,c); for(int i=0;i<3;++i){y[i]=w[0]*a[i]+w[1]*b[i]+w[2]*c[i]; p[i]=y[i];} Nearest_Triangle3_Point3(x,r0,r1,p,a,b,c); for(int i=0;i<3;++i){z[i]=x[i]-y[i];} z[3]=r0-w[0]; z[4]=r1-w[1]+%s;" % POS("q"), "a point in the triangle is its own nearest point"),
 Z("Nearest_Origin3_Tri3", "a:v3, b:v3, c:v3", 6, OO + "double x[3],r0,r1; put3(x,Nearest_Origin3_Tri3(r0,r1,V3(a),V3(b),V3(c))); " + TRIX, "the weights give the point, and the way to it is orthogonal to the part of the triangle it lies on"),
 Z("Nearest_Origin3_Tri3(inside)", "r:n3, b:v3, c:v3, h:s", 3, "double q=r[0]*r[0]+r[1]*r[1]+r[2]*r[2], w[3]={r[0]*r[0]/q,r[1]*r[1]/q,r[2]*r[2]/q}, n[3], A[3],B[3],C[3], x[3],r0,r1; rcross(n,b,c); for(int i=0;i<3;++i){ double o=w[1]*b[i]+w[2]*c[i]; A[i]=-o+h*n[i]; B[i]=A[i]+b[i]; C[i]=A[i]+c[i]; } put3(x,Nearest_Origin3_Tri3(r0,r1,V3(A),V3(B),V3(C))); for(int i=0;i<3;++i){z[i]=x[i]-h*n[i]+%s;}" % POS("q"), "a point above the inside of the triangle projects to it"),
 Z("IntersectRay_Tri3", "o:p3, d:v3, a:p3, b:p3, c:p3", 3, "double r0,r1; IntersectRay_Tri3(r0,r1,V3(o),V3(d),V3(a),V3(b),V3(c),1.0e-5); double y[3],n[3]; for(int i=0;i<3;++i){y[i]=r0*a[i]+r1*b[i]+(1-r0-r1)*c[i]-o[i];} rcross(n,y,d); put3(z,n);", "the weights give a point on the ray"),
 Z("IntersectRay_Tri3(hit)", "r:n3, d:v3, a:p3, b:p3, c:p3, t:s", 1, "double r0,r1,o[3]; double w[3]={r[0]*r[0],r[1]*r[1],r[2]*r[2]}, q=w[0]+w[1]+w[2]; for(int i=0;i<3;++i){o[i]=(w[0]*a[i]+w[1]*b[i]+w[2]*c[i])/q-t*d[i];} bool f=IntersectRay_Tri3(r0,r1,V3(o),V3(d),V3(a),V3(b),V3(c),1.0e-5); z[0]=(f?0:1)+%s;" % POS("q"), "a ray through the inside of the triangle hits it"),
 Z("ProjectPointOnTriangle", "p:p3, a:p3, b:p3, c:p3", 4, "double x[3],n[3],e[3],y[3]; put3(x,ProjectPointOnTriangle(V3(p),V3(a),V3(b),V3(c))); rnormal(n,a,b,c); rsub(e,x,a); z[0]=rdot(n,e); rsub(e,x,p); rcross(y,e,n); put3(z+1,y);", "the projection is in the plane, along the normal"),
 Z("isPointInsideTriangle", "r:n3, a:p3, b:p3, c:p3", 1, "double q=r[0]*r[0]+r[1]*r[1]+r[2]*r[2], w[3]={r[0]*r[0]/q,r[1]*r[1]/q,r[2]*r[2]/q}, p[3],n[3]; rnormal(n,a,b,c); for(int i=0;i<3;++i){p[i]=w[0]*a[i]+w[1]*b[i]+w[2]*c[i];} z[0]=(isPointInsideTriangle(V3(p),V3(a),V3(b),V3(c))?0:1)+%s+%s;" % (POS("q"), POS("rdot(n,n)")), "a point with positive weights is inside"),
 Z("isPointInsideTriangle(outside)", "r:n3, a:p3, b:p3, c:p3", 3, "double u[3]={r[0]*r[0],r[1]*r[1],r[2]*r[2]}, n[3]; rnormal(n,a,b,c); for(int k=0;k<3;++k){ double w[3]={u[0],u[1],u[2]}, p[3]; w[k]=-w[k]; double q=w[0]+w[1]+w[2]; for(int i=0;i<3;++i){p[i]=(w[0]*a[i]+w[1]*b[i]+w[2]*c[i])/q;} z[k]=(isPointInsideTriangle(V3(p),V3(a),V3(b),V3(c))?1:0)+%s+%s; }" % (POS("q"), POS("rdot(n,n)")), "a point with one negative weight is outside"),
 Z("isRayIntersectingTriangle", "r:n3, d:v3, a:p3, b:p3, c:p3, t:s", 4, "double o[3],y[3],e[3],n[3]; double w[3]={r[0]*r[0],r[1]*r[1],r[2]*r[2]}, q=w[0]+w[1]+w[2]; for(int i=0;i<3;++i){y[i]=(w[0]*a[i]+w[1]*b[i]+w[2]*c[i])/q; o[i]=y[i]-t*t*d[i]; e[i]=o[i]+d[i];} CVec3d x(0,0,0); rnormal(n,a,b,c); bool f=isRayIntersectingTriangle(V3(o),V3(e),V3(a),V3(b),V3(c),x); z[0]=(f?0:1)+%s+%s; for(int i=0;i<3;++i){z[1+i]=x[i]-y[i];}" % (POS("q"), POS("rdot(n,n)")), "a ray through the inside of the triangle hits it there"),
 Z("DistanceFaceVertex", "a:p3, b:p3, c:p3, p:p3", 4, "double w0,w1; double D=DistanceFaceVertex(V3(a),V3(b),V3(c),V3(p),w0,w1); double x[3],g[3],u[3],v[3],n[3]; for(int i=0;i<3;++i){x[i]=w0*a[i]+w1*b[i]+(1-w0-w1)*c[i];} rsub(g,x,p); rsub(u,a,c); rsub(v,b,c); z[0]=rdot(g,u); z[1]=rdot(g,v); rnormal(n,a,b,c); z[2]=D*D-rdot(g,g); z[3]=D-std::sqrt(rdot(g,g));", "foot of the perpendicular and its length"),
 Z("Area_Tri3", "a:p3, b:p3, c:p3", 14, "double n[3]; rnormal(n,a,b,c); double A=std::sqrt(rdot(n,n)); z[0]=2*Area_Tri3(V3(a),V3(b),V3(c))-A; z[1]=4*SquareTriArea(V3(a),V3(b),V3(c))-rdot(n,n); CVec3d m; double s; UnitNormalAreaTri3(m,s,V3(a),V3(b),V3(c)); z[2]=2*s-A; CVec3d k; Normal_Tri3(k,V3(a),V3(b),V3(c)); CVec3d u=UnitNormal_Tri3(V3(a),V3(b),V3(c)); for(int i=0;i<3;++i){z[3+i]=m[i]*A-n[i]; z[6+i]=k[i]-n[i]; z[9+i]=u[i]*A-n[i];} auto j=Normal_Tri3(V3(a),V3(b),V3(c)); z[12]=j[0]-n[0]; z[13]=j[1]+j[2]-n[1]-n[2];", "normal and area from the cross product of two edges"),
 Z("SolidAngleTri", "a:v3, b:v3, c:v3", 1, "double la=std::sqrt(rdot(a,a)),lb=std::sqrt(rdot(b,b)),lc=std::sqrt(rdot(c,c)),m[9]={a[0],a[1],a[2],b[0],b[1],b[2],c[0],c[1],c[2]}; double v=SolidAngleTri(V3(a),V3(b),V3(c))/2, den=la*lb*lc+rdot(a,b)*lc+rdot(b,c)*la+rdot(c,a)*lb; z[0]=std::sin(v)*den-std::cos(v)*rdet3(m);", "tan of half the solid angle"),
 Z("CG_Tri3(mesh)", "a:n3p3", 6, "std::vector<unsigned int> t={0,1,2}; std::vector<double> v(a,a+9); CVec3d g=CG_Tri3(0,t,v); double n[3]; rnormal(n,a,a+3,a+6); CVec3d m=Normal_Tri3(0,t,v); for(int i=0;i<3;++i){z[i]=3*g[i]-a[i]-a[3+i]-a[6+i]; z[3+i]=m[i]-n[i];}", "centroid and normal"),
 Z("Mat3_IrotTri", "a:v3, b:v3, c:v3, w:v3", 1, "double n[3],I[9],o[3],q=0; rnormal(n,a,b,c); put9(I,Mat3_IrotTri(V3(a),V3(b),V3(c))); rmv(o,I,w,3); const double *v[3]={a,b,c}; double s[3]={0,0,0}; for(int k=0;k<3;++k){ double e[3]; rcross(e,w,v[k]); q+=rdot(e,e); for(int i=0;i<3;++i){s[i]+=e[i];} } q+=rdot(s,s); z[0]=rdot(w,o)-q*std::sqrt(rdot(n,n))/24;", "twice the rotational energy of the triangle turning about the origin"),
 Z("Mat3_IrotTriSolid", "a:v3, b:v3, c:v3, w:v3", 1, "double I[9],o[3],q=0,m[9]={a[0],a[1],a[2],b[0],b[1],b[2],c[0],c[1],c[2]}; put9(I,Mat3_IrotTriSolid(V3(a),V3(b),V3(c))); rmv(o,I,w,3); const double *v[3]={a,b,c}; double s[3]={0,0,0}; for(int k=0;k<3;++k){ double e[3]; rcross(e,w,v[k]); q+=rdot(e,e); for(int i=0;i<3;++i){s[i]+=e[i];} } q+=rdot(s,s); z[0]=rdot(w,o)-q*rdet3(m)/120;", "twice the rotational energy of the tetrahedron turning about the origin"),
 Z("Mat3_IrotLineSeg", "a:v3, b:v3, w:v3", 1, "double I[9],o[3],d[3],e[3],f[3]; put9(I,Mat3_IrotLineSeg(V3(a),V3(b))); rmv(o,I,w,3); rsub(d,b,a); rcross(e,w,a); rcross(f,w,b); z[0]=rdot(w,o)-std::sqrt(rdot(d,d))*(rdot(e,e)+rdot(e,f)+rdot(f,f))/3;", "twice the rotational energy of the segment turning about the origin"),
 Z("Nearest_Plane3_Point3", "p:p3, a:p3, n:v3", 4, "double x[3],e[3],y[3]; put3(x,Nearest_Plane3_Point3(V3(p),V3(a),V3(n))); rsub(e,x,a); z[0]=rdot(e,n); rsub(e,x,p); rcross(y,e,n); put3(z+1,y);", "in the plane, along the normal"),
 Z("Nearest_Origin3_PlaneTri3", "a:v3, b:v3, c:v3", 6, "double x[3],r0,r1,n[3],y[3]; put3(x,Nearest_Origin3_PlaneTri3(r0,r1,V3(a),V3(b),V3(c))); rnormal(n,a,b,c); rcross(y,x,n); put3(z,y); for(int i=0;i<3;++i){z[3+i]=r0*a[i]+r1*b[i]+(1-r0-r1)*c[i]-x[i];}", "in the plane, along the normal"),
 Z("Intersection_Plane3_Line3(tri)", "o:p3, d:v3, a:p3, b:p3, c:p3", 8, "CVec3d x; double r0,r1,r2,X[3],e[3],y[3],n[3]; Intersection_Plane3_Line3(x,r0,r1,r2,1.0e-5,V3(o),V3(d),V3(a),V3(b),V3(c)); put3(X,x); rsub(e,X,o); rcross(y,e,d); put3(z,y); for(int i=0;i<3;++i){z[3+i]=r0*a[i]+r1*b[i]+r2*c[i]-X[i];} z[6]=r0+r1+r2-1; rnormal(n,a,b,c); rsub(e,X,a); z[7]=rdot(n,e);", "on the line and in the plane"),
 Z("Intersection_Plane3_Line3", "a:p3, n:v3, o:p3, d:v3", 4, "double X[3],e[3],y[3]; put3(X,Intersection_Plane3_Line3(V3(a),V3(n),V3(o),V3(d))); rsub(e,X,o); rcross(y,e,d); put3(z,y); rsub(e,X,a); z[3]=rdot(e,n);", "on the line and in the plane"),
 Z("FindNearestPointParameter_Line_Point", "p:p3, a:p3, b:p3, f:p2, g:p2, h:p2", 2, "double t=FindNearestPointParameter_Line_Point(V3(p),V3(a),V3(b)),s=0; for(int i=0;i<3;++i){s+=(a[i]+t*(b[i]-a[i])-p[i])*(b[i]-a[i]);} z[0]=s; t=FindNearestPointParameter_Line_Point(V2(f),V2(g),V2(h)); s=0; for(int i=0;i<2;++i){s+=(g[i]+t*(h[i]-g[i])-f[i])*(h[i]-g[i]);} z[1]=s;", "the way to the point is orthogonal to the line"),
 Z("Nearest_Line3_Point3", "p:p3, o:p3, d:v3", 10, "double x[3],y[3],t,e[3],n[3]; put3(x,Nearest_Line3_Point3(V3(p),V3(o),V3(d))); put3(y,Nearest_Line3_Point3(t,V3(p),V3(o),V3(d))); rsub(e,x,p); z[0]=rdot(e,d); rsub(e,x,o); rcross(n,e,d); put3(z+1,n); for(int i=0;i<3;++i){z[4+i]=y[i]-x[i]; z[7+i]=o[i]+t*d[i]-x[i];}", "on the line, orthogonal to it"),
 Z("Nearest_Line3_Line3", "o:p3, d:v3, p:p3, e:v3", 16, "double D,E,s,t; CVec3d u,v,f,g; Nearest_Line3_Line3(D,u,v,s,t,V3(o),V3(d),V3(p),V3(e)); Nearest_Line3_Line3(E,f,g,V3(o),V3(d),V3(p),V3(e)); double c[3]; for(int i=0;i<3;++i){c[i]=u[i]-v[i]; z[i]=D*o[i]+s*d[i]-u[i]; z[3+i]=D*p[i]+t*e[i]-v[i]; z[6+i]=f[i]-u[i]; z[9+i]=g[i]-v[i];} z[12]=rdot(c,d); z[13]=rdot(c,e); z[14]=E-D; double n[3]; rcross(n,d,e); z[15]=D-rdot(n,n);", "on the lines, and the way between the points orthogonal to both"),
 Z("Nearest_Line_Circle", "o:p3, d:v3, c:p3, n:v3, r:s", 6, "double l=std::sqrt(rdot(n,n)), m[3]={n[0]/l,n[1]/l,n[2]/l}; CVec3d u,v; Nearest_Line_Circle(u,v,V3(o),V3(d),V3(c),V3(m),r); double e[3],y[3]; for(int i=0;i<3;++i){e[i]=v[i]-c[i];} z[0]=rdot(e,n); z[1]=rdot(e,e)-r*r; double x[3]; put3(x,u); rsub(e,x,o); rcross(y,e,d); put3(z+2,y); double a[3]; for(int i=0;i<3;++i){a[i]=x[i]-c[i];} double b[3],w[3]={v[0]-c[0],v[1]-c[1],v[2]-c[2]}; rcross(b,a,w); z[5]=b[0]*0+(n[1]*b[2]-n[2]*b[1])*0+rdot(b,n)*1;", "on the line and on the circle, the point of the circle towards the point of the line"),
 Z("Nearest_Origin_Edge", "a:v3, b:v3", 8, "double t,x[3],e[3]; put3(x,Nearest_Origin_Edge(t,V3(a),V3(b))); rsub(e,b,a); for(int i=0;i<3;++i){z[i]=a[i]+t*e[i]-x[i];} z[3]=t*(1-t)*rdot(x,e); CVec3d y=Nearest_Origin_Edge(V3(a),V3(b)); for(int i=0;i<3;++i){z[4+i]=y[i]-x[i];} z[7]=0;", "on the edge, and orthogonal to it unless it is an end point"),
 Z("Nearest_Origin_Edge(inside)", "a:v3, b:v3, t:n2", 4, "double u=t[0]*t[0],w=t[1]*t[1],s=u/(u+w); double n[3],A[3],B[3],x[3],r; rcross(n,a,b); for(int i=0;i<3;++i){A[i]=n[i]-s*a[i]; B[i]=n[i]+(1-s)*a[i];} put3(x,Nearest_Origin_Edge(r,V3(A),V3(B))); for(int i=0;i<3;++i){z[i]=x[i]-n[i];} z[3]=r-s+%s;" % POS("u+w"), "the foot of the perpendicular when it is inside"),
 Z("Nearest_Edge_Point", "p:p3, a:p3, b:p3", 14, "double t,x[3],e[3],g[3],y[3]; put3(x,Nearest_Edge_Point(t,V3(p),V3(a),V3(b))); rsub(e,b,a); rsub(g,x,p); for(int i=0;i<3;++i){z[i]=a[i]+t*e[i]-x[i];} z[3]=t*(1-t)*rdot(g,e); CVec3d w=Nearest_Edge_Point(V3(p),V3(a),V3(b)); Nearest_Edge3_Point3(y,p,a,b); for(int i=0;i<3;++i){z[4+i]=w[i]-x[i]; z[7+i]=y[i]-x[i];} double D=Distance_Edge_Point(V3(p),V3(a),V3(b)); z[10]=D*D-rdot(g,g); z[11]=D-std::sqrt(rdot(g,g)); z[12]=0; z[13]=0;", "on the edge, and orthogonal to it unless it is an end point"),
 Z("Nearest_Edge_Point(2D)", "p:p2, a:p2, b:p2", 3, "CVec2d x=Nearest_Edge_Point(V2(p),V2(a),V2(b)); double e[2]={b[0]-a[0],b[1]-a[1]},f[2]={x[0]-a[0],x[1]-a[1]},g[2]={x[0]-p[0],x[1]-p[1]},h[2]={x[0]-b[0],x[1]-b[1]}; z[0]=e[0]*f[1]-e[1]*f[0]; z[1]=(g[0]*e[0]+g[1]*e[1])*(f[0]*e[0]+f[1]*e[1])*(h[0]*e[0]+h[1]*e[1]); double D=Distance_Edge_Point(V2(p),V2(a),V2(b)); z[2]=D*D-g[0]*g[0]-g[1]*g[1];", "on the edge, and orthogonal to it unless it is an end point"),
 Z("Nearest_Edge3_Line3", "a:p3, b:p3, o:p3, d:v3", 8, "CVec3d u,v; Nearest_Edge3_Line3(u,v,V3(a),V3(b),V3(o),V3(d)); double U[3],V[3],e[3],f[3],g[3],h[3],n[3]; put3(U,u); put3(V,v); rsub(e,b,a); rsub(f,U,a); rsub(h,U,b); rcross(n,e,f); put3(z,n); rsub(g,V,o); rcross(n,g,d); put3(z+3,n); rsub(g,U,V); z[6]=rdot(g,d); z[7]=rdot(g,e)*rdot(f,e)*rdot(h,e);", "on the edge and the line, the way between orthogonal to the line, and to the edge unless at its end"),
 Z("Distance_Edge3_Edge3", "a:p3, b:p3, c:p3, d:p3", 1, "double s,t,u[3],v[3],n[3]; double D=Distance_Edge3_Edge3(V3(a),V3(b),V3(c),V3(d),s,t); for(int i=0;i<3;++i){u[i]=(1-s)*a[i]+s*b[i]-(1-t)*c[i]-t*d[i];} z[0]=D*D-rdot(u,u);", "the distance of the points given by the ratios"),
 Z("Distance_Edge3_Edge3(inside)", "a:p3, e:v3, f:v3, r:n4, h:s", 3, "double s=r[0]*r[0]/(r[0]*r[0]+r[1]*r[1]),t=r[2]*r[2]/(r[2]*r[2]+r[3]*r[3]),n[3],b[3],c[3],d[3],S,T; rcross(n,e,f); for(int i=0;i<3;++i){b[i]=a[i]+e[i]; c[i]=a[i]+s*e[i]+h*n[i]-t*f[i]; d[i]=c[i]+f[i];} double D=Distance_Edge3_Edge3(V3(a),V3(b),V3(c),V3(d),S,T); z[0]=S-s; z[1]=T-t; z[2]=D*D-h*h*rdot(n,n)+%s+%s;" % (POS("r[0]*r[0]+r[1]*r[1]"), POS("r[2]*r[2]+r[3]*r[3]")), "the common perpendicular when its feet are inside"),
]))

# ---------------------------------------------------------------- tetrahedra, quads, solids
P4 = "V3(a),V3(b),V3(c),V3(d)"
TE = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
EDGES = "const double *v[4]={a,b,c,d}; double L[6]; { int k=0; for(int i=0;i<4;++i){for(int j=i+1;j<4;++j){ double e[3]; rsub(e,v[i],v[j]); L[k++]=rdot(e,e); } } } "
UW = "double s=r[0]*r[0]/(r[0]*r[0]+r[1]*r[1]),t=r[2]*r[2]/(r[2]*r[2]+r[3]*r[3]); "
PUW = POS("r[0]*r[0]+r[1]*r[1]") + "+" + POS("r[2]*r[2]+r[3]*r[3]")
PYR = "double N[5]={(1-R[2])*(1-R[0])*(1-R[1]),(1-R[2])*R[0]*(1-R[1]),(1-R[2])*R[0]*R[1],(1-R[2])*(1-R[0])*R[1],R[2]}; "
WDG = "double N[6]={(1-R[2])*R[0],(1-R[2])*R[1],(1-R[2])*(1-R[0]-R[1]),R[2]*R[0],R[2]*R[1],R[2]*(1-R[0]-R[1])}; "
PA = lambda n: ",".join("V3(a+%d)" % (3 * i) for i in range(n))
I.append((["geo_tet.h", "geo_quad.h", "geo_ccd.h", "vec3.h", "mat3.h", "geosolidelm_v3.h"], [
 Z("Height_Tet", "a:p3, b:p3, c:p3, d:p3", 1, "double n[3],e[3]; rnormal(n,a,b,c); rsub(e,d,a); z[0]=Height_Tet(%s)*std::sqrt(rdot(n,n))-rdot(n,e);" % P4, "the distance from the base"),
 Z("barycentricCoord_Origin_Tet", "a:v3, b:v3, c:v3, d:v3", 4, "double r0,r1,r2; bool f=barycentricCoord_Origin_Tet(r0,r1,r2,%s); for(int i=0;i<3;++i){z[i]=r0*a[i]+r1*b[i]+r2*c[i]+(1-r0-r1-r2)*d[i];} z[3]=f?0:1;" % P4, "the weights reproduce the origin"),
 Z("Volume_Tet", "a:p3, b:p3, c:p3, d:p3", 2, "double m[9]={a[0],a[1],a[2],b[0],b[1],b[2],c[0],c[1],c[2]}; z[0]=Volume_Tet(%s)-rvol(a,b,c,d); z[1]=6*Volume_OrgTet(V3(a),V3(b),V3(c))-rdet3(m);" % P4, "volume"),
 Z("Mat3_3BasesOfTet", "a:p3, b:p3, c:p3, d:p3", 9, "auto M=Mat3_3BasesOfTet(%s); for(int i=0;i<3;++i){z[3*i]=M[3*i]-b[i]+a[i]; z[3*i+1]=M[3*i+1]-c[i]+a[i]; z[3*i+2]=M[3*i+2]-d[i]+a[i];}" % P4, "the columns are the edges"),
 Z("DeformationGradientOfTet", "A:p3, B:p3, C:p3, D:p3, a:p3, b:p3, c:p3, d:p3", 9, "auto F=DeformationGradientOfTet(V3(A),V3(B),V3(C),V3(D),%s); const double *X[4]={A,B,C,D},*x[4]={a,b,c,d}; for(int k=0;k<3;++k){ double E[3],e[3],y[3]; rsub(E,X[k+1],A); rsub(e,x[k+1],a); rmv(y,F.data(),E,3); for(int i=0;i<3;++i){z[3*k+i]=y[i]-e[i];} }" % P4, "maps the edges at rest to the edges"),
 Z("DiffDeformationGradientOfTet", "a:p3, b:p3, c:p3, d:p3, m:n9, t:n3", 12, "double g[4][3]; DiffDeformationGradientOfTet(g,%s); const double *v[4]={a,b,c,d}; double F[9]={0,0,0,0,0,0,0,0,0},s[3]={0,0,0}; for(int k=0;k<4;++k){ double y[3]; rmv(y,m,v[k],3); for(int i=0;i<3;++i){ s[i]+=g[k][i]; for(int j=0;j<3;++j){F[3*i+j]+=(y[i]+t[i])*g[k][j];} } } for(int i=0;i<9;++i){z[i]=F[i]-m[i];} for(int i=0;i<3;++i){z[9+i]=s[i];}" % P4, "gradient of an affine map"),
] + [
 Z("%sSquaredEdgeLengthOfTet(%d)" % (w, k), "a:p3, b:p3, c:p3, d:p3", 1, EDGES + "z[0]=%sSquaredEdgeLengthOfTet(%s)-L[%d]+%s;" % (w, P4, k, "+".join(POS("L[%d]-L[%d]" % ((k, j) if w == "Longest" else (j, k))) for j in range(6) if j != k)), "an edge %s than the others is the %s one" % ("longer" if w == "Longest" else "shorter", w.lower()))
 for w in ("Longest", "Shortest") for k in range(6)
] + [
 Z("QuadBilinear", "a:n4p3, r:s, s:s", 3, "std::vector<int> q(4); q[0]=0; q[1]=1; q[2]=2; q[3]=3; auto &v=*new std::vector<CVec3d>{V3(a),V3(a+3),V3(a+6),V3(a+9)}; CVec3d x=QuadBilinear(0,r,s,q,v); for(int i=0;i<3;++i){z[i]=x[i]-((1-r)*(1-s)*a[i]+r*(1-s)*a[3+i]+r*s*a[6+i]+(1-r)*s*a[9+i]);}", "bilinear interpolation"),
 Z("Nearst_Origin3_Quad3(inside)", "e:v3, f:v3, r:n4, h:s", 5, UW + "double n[3],a[3],b[3],c[3],d[3],x[3],s0,s1; rcross(n,e,f); for(int i=0;i<3;++i){a[i]=h*n[i]-s*e[i]-t*f[i]; b[i]=a[i]+e[i]; c[i]=b[i]+f[i]; d[i]=a[i]+f[i];} put3(x,Nearst_Origin3_Quad3(s0,s1,%s)); for(int i=0;i<3;++i){z[i]=x[i]-h*n[i];} z[3]=s0-s; z[4]=s1-t+%s;" % (P4, PUW), "a point above the inside of a parallelogram projects to it"),
 Z("intersection_Point_Quad(hit)", "e:v3, f:v3, r:n4, h:s, a:p3, g:v3", 6, UW + "double b[3],c[3],d[3],x[3],y[3],o[3],s0,s1; for(int i=0;i<3;++i){b[i]=a[i]+e[i]; c[i]=b[i]+f[i]; d[i]=a[i]+f[i]; y[i]=a[i]+s*e[i]+t*f[i]; o[i]=y[i]-h*g[i];} CVec3d X; bool hit=intersection_Point_Quad(X,s0,s1,V3(o),V3(g),%s); put3(x,X); for(int i=0;i<3;++i){z[i]=x[i]-y[i];} z[3]=s0-s; z[4]=s1-t; z[5]=(hit?0:1)+%s;" % (P4, PUW), "a ray through the inside of a parallelogram hits it there"),
 Z("iteration_intersection_Line_Quad", "o:p3, u:v3, v:v3, a:p3, e:v3, f:v3, s:s, t:s", 2, "double b[3],c[3],d[3],x[3],s0=s,s1=t; for(int i=0;i<3;++i){b[i]=a[i]+e[i]; c[i]=b[i]+f[i]; d[i]=a[i]+f[i];} iteration_intersection_Line_Quad(s0,s1,V3(o),V3(u),V3(v),%s); for(int i=0;i<3;++i){x[i]=a[i]+s0*e[i]+s1*f[i]-o[i];} z[0]=rdot(x,u); z[1]=rdot(x,v);" % P4, "one step solves the problem on a parallelogram"),
 Z("positionBarycentricCoord_Pyramid", "R:n3, a:n5p3", 3, PYR + "double x[3]; put3(x,positionBarycentricCoord_Pyramid(R[0],R[1],R[2],%s)); for(int i=0;i<3;++i){z[i]=x[i]; for(int k=0;k<5;++k){z[i]-=N[k]*a[3*k+i];}}" % PA(5), "shape functions of a pyramid"),
 Z("positionBarycentricCoord_Wedge", "R:n3, a:n6p3", 3, WDG + "double x[3]; put3(x,positionBarycentricCoord_Wedge(R[0],R[1],R[2],%s)); for(int i=0;i<3;++i){z[i]=x[i]; for(int k=0;k<6;++k){z[i]-=N[k]*a[3*k+i];}}" % PA(6), "shape functions of a wedge"),
 Z("barycentricCoord_Origin_Pyramid(root)", "R:n3, A:n5v3", 3, PYR + "double a[15]; for(int i=0;i<15;++i){a[i]=A[i];} for(int i=0;i<3;++i){double s=0; for(int k=0;k<4;++k){s+=N[k]*a[3*k+i];} a[12+i]=-s/R[2];} double r0=R[0],r1=R[1],r2=R[2]; barycentricCoord_Origin_Pyramid(r0,r1,r2,%s); z[0]=r0-R[0]; z[1]=r1-R[1]; z[2]=r2-R[2];" % PA(5), "the solution is kept"),
 Z("barycentricCoord_Origin_Wedge", "r:n3, e:v3, f:v3, g:v3, o:v3", 3, "double a[18]; for(int i=0;i<3;++i){a[i]=o[i]; a[3+i]=o[i]+e[i]; a[6+i]=o[i]+f[i]; for(int k=0;k<3;++k){a[9+3*k+i]=a[3*k+i]+g[i];}} double r0=r[0],r1=r[1],r2=r[2]; barycentricCoord_Origin_Wedge(r0,r1,r2,%s); double R[3]={r0,r1,r2}; " % PA(6) + WDG + "for(int i=0;i<3;++i){z[i]=0; for(int k=0;k<6;++k){z[i]+=N[k]*a[3*k+i];}}", "the coordinates in a prism reproduce the origin"),
 Z("Volume_Pyramid", "a:n5p3, e:v3, f:v3", 2, "const double *p=a; double A=rvol(p,p+3,p+6,p+12)+rvol(p,p+6,p+9,p+12),B=rvol(p,p+3,p+9,p+12)+rvol(p+6,p+9,p+3,p+12); z[0]=Volume_Pyramid(%s)*2-A-B; double b[15],m[9]; for(int i=0;i<3;++i){b[i]=a[i]; b[3+i]=a[i]+e[i]; b[6+i]=a[i]+e[i]+f[i]; b[9+i]=a[i]+f[i]; b[12+i]=a[12+i]; m[i]=e[i]; m[3+i]=f[i]; m[6+i]=a[12+i]-a[i];} z[1]=Volume_Pyramid(V3(b),V3(b+3),V3(b+6),V3(b+9),V3(b+12))*3-rdet3(m);" % PA(5), "volume of a pyramid"),
 Z("Volume_Wedge", "e:v3, f:v3, g:v3, o:v3", 1, "double a[18],m[9]; for(int i=0;i<3;++i){a[i]=o[i]; a[3+i]=o[i]+e[i]; a[6+i]=o[i]+f[i]; m[i]=e[i]; m[3+i]=f[i]; m[6+i]=g[i]; for(int k=0;k<3;++k){a[9+3*k+i]=a[3*k+i]+g[i];}} z[0]=Volume_Wedge(%s)*2+rdet3(m);" % PA(6), "volume of a prism"),
]))
D.append((["geo_quad.h", "geo_ccd.h", "vec3.h", "geosolidelm_v3.h"], [
 K("iteration_intersection_Line_Quad(step)", "d:n2, s:s, t:s, a:p3, b:p3, c:p3, e:p3, u:v3, v:v3, h:s, >z:n2", "  using namespace delfem2; double o[3],n[3]; rcross(n,u,v); for(int i=0;i<3;++i){o[i]=(1-s)*(1-t)*a[i]+s*(1-t)*b[i]+s*t*c[i]+(1-s)*t*e[i]+h*n[i];} double s0=s+d[0],s1=t+d[1]; iteration_intersection_Line_Quad(s0,s1,V3(o),V3(u),V3(v),V3(a),V3(b),V3(c),V3(e)); z[0]=s0-s; z[1]=s1-t;", laws=["zero z", "d z[k] = 0 z[k] d[j]"], null=["d"]),
]))

# ---------------------------------------------------------------- finite elements: shape functions, element matrices
F = []
HN = {"Hex": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
      "Vox": [(x, y, w) for w in (0, 1) for y in (0, 1) for x in (0, 1)]}
HEXC = lambda w: "const double s_[8][3]={%s}; " % ",".join("{%d,%d,%d}" % tuple(2 * v - 1 for v in n) for n in HN[w])
F.append((["femutil.h", "quadrature.h"], [
 Z("femutil::TriArea2D", "a:p2, b:p2, c:p2, p:p2", 4, "z[0]=femutil::TriArea2D(a,b,c)-rarea2(a,b,c); double o[3]; femutil::TriAreaCoord(o,a,b,c,p); z[1]=o[0]+o[1]+o[2]-1; for(int i=0;i<2;++i){z[2+i]=o[0]*a[i]+o[1]*b[i]+o[2]*c[i]-p[i];}", "area and area coordinates"),
 Z("femutil::TriArea3D", "a:p3, b:p3, c:p3, d:p3", 7, "double n[3],m[3],A,e[3]; rnormal(n,a,b,c); double l=std::sqrt(rdot(n,n)); z[0]=femutil::TriArea3D(a,b,c)*2-l; femutil::UnitNormalAreaTri3D(m,A,a,b,c); z[1]=A*2-l; for(int i=0;i<3;++i){z[2+i]=m[i]*l-n[i];} rsub(e,a,b); z[5]=femutil::Distance3D(a,b)-std::sqrt(rdot(e,e)); z[6]=femutil::TetVolume3D(a,b,c,d)-rvol(a,b,c,d);", "area, normal, distance, volume"),
 Z("femutil::MatMat3", "a:n9, b:n9, v:n3, w:n3", 25, "double o[9],r[9],t[9]; femutil::MatMat3(o,a,b); rmm(r,a,b,3); for(int i=0;i<9;++i){z[i]=o[i]-r[i];} rtr(t,b,3); femutil::MatMatTrans3(o,a,b); rmm(r,a,t,3); for(int i=0;i<9;++i){z[9+i]=o[i]-r[i];} femutil::MatVec3(o,a,v); rmv(r,a,v,3); for(int i=0;i<3;++i){z[18+i]=o[i]-r[i];} femutil::Cross3D(o,v,w); rcross(r,v,w); for(int i=0;i<3;++i){z[21+i]=o[i]-r[i];} z[24]=femutil::Dot3D(v,w)-rdot(v,w);", "products"),
 Z("TriDlDx", "c:n3p2", 9, "double d[3][2],o[3]; TriDlDx(d,o,c,c+2,c+4); for(int i=0;i<3;++i){for(int j=0;j<3;++j){z[3*i+j]=o[i]+d[i][0]*c[2*j]+d[i][1]*c[2*j+1]-(i==j?1:0);}}", "the area coordinates are one at their corner and zero at the others"),
 Z("TetDlDx", "c:n4p3", 16, "double d[4][3],o[4]; TetDlDx(d,o,c,c+3,c+6,c+9); for(int i=0;i<4;++i){for(int j=0;j<4;++j){z[4*i+j]=o[i]+rdot(d[i],c+3*j)-(i==j?1:0);}}", "the volume coordinates are one at their corner and zero at the others"),
] + [
 Z("ShapeFunc_%s8" % w, "r0:s, r1:s, r2:s, C:n8p3, o:p3, m:n9", 50, HEXC(w) + "double c[24],d[8][3],n[8],j; for(int i=0;i<24;++i){c[i]=C[i];} ShapeFunc_%s8(r0,r1,r2,CA(c,3),j,OA(d,3),n); double r[3]={r0,r1,r2}; for(int k=0;k<8;++k){double N=1; for(int i=0;i<3;++i){N*=(1+s_[k][i]*r[i])/2;} z[k]=n[k]-N;} "
   "double dx[9]; for(int i=0;i<9;++i){dx[i]=0;} for(int k=0;k<8;++k){for(int a=0;a<3;++a){double g=s_[k][a]/2; for(int b=0;b<3;++b){if(b!=a){g*=(1+s_[k][b]*r[b])/2;}} for(int i=0;i<3;++i){dx[3*i+a]+=c[3*k+i]*g;}}} z[8]=j-rdet3(dx); "
   "for(int k=0;k<8;++k){for(int a=0;a<3;++a){double g=s_[k][a]/2; for(int b=0;b<3;++b){if(b!=a){g*=(1+s_[k][b]*r[b])/2;}} double h=0; for(int i=0;i<3;++i){h+=d[k][i]*dx[3*i+a];} z[9+3*k+a]=h-g;}} for(int i=33;i<50;++i){z[i]=0;}" % w, "trilinear shape functions, their gradients and the Jacobian")
 for w in ("Hex", "Vox")
] + [
 Z("RightCauchyGreen_DispGrad", "u:n9, g:n24, v:n24", 18, "double C[3][3],F[9],T[9],R[9],D[3][3]; for(int i=0;i<9;++i){F[i]=u[i]+(i%4==0?1:0);} rtr(T,F,3); rmm(R,T,F,3); RightCauchyGreen_DispGrad<3>(C,CA(u,3)); for(int i=0;i<9;++i){z[i]=C[i/3][i%3]-R[i];} DispGrad_GradshapeDisp<3,8,double>(D,CA(g,3),CA(v,3)); for(int i=0;i<9;++i){double s=0; for(int k=0;k<8;++k){s+=v[3*k+i/3]*g[3*k+i%3];} z[9+i]=D[i/3][i%3]-s;}", "deformation measures"),
 Z("DetInv_Mat3", "m:n9", 10, "double o[9],p[9]; z[9]=DetInv_Mat3(OA(o,3),CA(m,3))-rdet3(m); rmm(p,m,o,3); rid(z,p,3);", "determinant and inverse"),
 Z("AddEmatConsistentMassTet", "w:s, o:n144", 288, "double e[144],f[144]; for(int i=0;i<144;++i){e[i]=o[i];} AddEmatConsistentMassTet<3>(OC(e,4,3,3),w); SetEmatConsistentMassTet(OC(f,4,3,3),w); for(int i=0;i<4;++i){for(int j=0;j<4;++j){for(int a=0;a<3;++a){for(int b=0;b<3;++b){ int k=((i*4+j)*3+a)*3+b; double m=a==b?(i==j?2:1)*w/20:0; z[k]=e[k]-o[k]-m; z[144+k]=f[k]-m; }}}}", "mass matrix of a tetrahedron"),
 Z("EmatConsistentMassTri2", "w:s, o:n36", 72, "double e[36],f[36]; for(int i=0;i<36;++i){e[i]=o[i]; f[i]=0;} EmatConsistentMassTri2<2>(OC(e,3,2,2),w,true); EmatConsistentMassTri2<2>(OC(f,3,2,2),w,false); for(int i=0;i<3;++i){for(int j=0;j<3;++j){for(int a=0;a<2;++a){for(int b=0;b<2;++b){ int k=((i*3+j)*2+a)*2+b; double m=a==b?(i==j?2:1)*w/12:0; z[k]=e[k]-o[k]-m; z[36+k]=f[k]-m; }}}}", "mass matrix of a triangle"),
 Z("SetEMatLaplaceTet", "w:s, g:n12", 160, "double e[16],f[144]; SetEMatLaplaceTet(OA(e,4),w,CA(g,3)); SetEMatLaplaceTet(OC(f,4,3,3),w,CA(g,3)); for(int i=0;i<4;++i){for(int j=0;j<4;++j){double r=w*rdot(g+3*i,g+3*j); z[i*4+j]=e[i*4+j]-r; for(int a=0;a<3;++a){for(int b=0;b<3;++b){ int k=((i*4+j)*3+a)*3+b; z[16+k]=f[k]-(a==b?r:0); }}}}", "Laplacian of a tetrahedron"),
 Z("AddEmatEvecScale3", "e:n144, v:n12, s:s, o:n12", 12, "double r[12]; for(int i=0;i<12;++i){r[i]=o[i];} AddEmatEvecScale3<4>(OA(r,3),CC(e,4,3,3),CA(v,3),s); for(int i=0;i<4;++i){for(int a=0;a<3;++a){ double x=0; for(int j=0;j<4;++j){for(int b=0;b<3;++b){x+=e[((i*4+j)*3+a)*3+b]*v[3*j+b];}} z[3*i+a]=r[3*i+a]-o[3*i+a]-s*x; }}", "adds the scaled product"),
]))
REFT = {2: "double G[3][2]; double V=rtri(G,c); ", 3: "double G[4][3]; double V=rtet(G,c); "}
QB = "double M[16]; for(int i=0;i<4;++i){for(int j=0;j<4;++j){ int a=(i==1||i==2),b=(j==1||j==2),p=i>1,q=j>1; double sx=a==b?1:-1,sy=p==q?1:-1; M[4*i+j]=sx*(p==q?2:1)*y/(6*x)+sy*(a==b?2:1)*x/(6*y); }} "
FP = []
for nn, D_, fp, fd in ((3, 2, "EMat_Poisson_Tri2D", "EMat_Diffusion_Tri2D"), (4, 3, "EMat_Poisson_Tet3D", "EMat_Diffusion_Newmark_Tet3D")):
    FP.append(Z(fp, "k:s, q:s, c:n%dp%d, v:n%d" % (nn, D_, nn), nn * nn + nn, REFT[D_] + "double r[%(n)d],e[%(n)d][%(n)d]; %(f)s(r,e,k,q,CA(c,%(D)d),v); for(int i=0;i<%(n)d;++i){ double s=q*V/%(n)d; for(int j=0;j<%(n)d;++j){ double x=k*V*rdot(G[i],G[j],%(D)d); z[%(n)d*i+j]=e[i][j]-x; s-=x*v[j]; } z[%(n)d*%(n)d+i]=r[i]-s; }" % dict(n=nn, D=D_, f=fp), "stiffness, source and residual of the Laplacian"))
    FP.append(Z(fd, "k:s, q:s, t:s, g:s, h:s, c:n%dp%d, v:n%d, w:n%d" % (nn, D_, nn, nn), nn * nn + nn, REFT[D_] + "double r[%(n)d],e[%(n)d][%(n)d]; %(f)s(r,e,k,q,t,g,h,CA(c,%(D)d),v,w); for(int i=0;i<%(n)d;++i){ double s=q*V/%(n)d; for(int j=0;j<%(n)d;++j){ double x=k*V*rdot(G[i],G[j],%(D)d), m=h*V*(i==j?2:1)/%(d)d; z[%(n)d*i+j]=e[i][j]-m-g*t*x; s-=x*(v[j]+t*w[j])+m*w[j]; } z[%(n)d*%(n)d+i]=r[i]-s; }" % dict(n=nn, D=D_, f=fd, d=12 if nn == 3 else 20), "mass, diffusion and residual of one implicit step"))
F.append((["fem_poisson.h", "fem_helmholtz.h"], FP + [
 Z("EMat_Poission2_QuadOrth", "x:s, y:s", 48, QB + "double e[4][4]; EMat_Poission2_QuadOrth(e,x,y); for(int i=0;i<16;++i){z[i]=e[i/4][i%4]-M[i];} EMat_Poisson2_QuadOrth_GaussInt(e,x,y,1); for(int i=0;i<16;++i){z[16+i]=e[i/4][i%4]-M[i];} EMat_Poisson2_QuadOrth_GaussInt(e,x,y,2); for(int i=0;i<16;++i){z[32+i]=e[i/4][i%4]-M[i];}", "integral of the gradients of the bilinear functions"),
 Z("EMat_Helmholtz_Tri2D", "l:s, c:n3p2, v:n6", 26, REFT[2] + "using C=std::complex<double>; C r[3],e[3][3],f[3][3],u[3]={C(v[0],v[1]),C(v[2],v[3]),C(v[4],v[5])}; EMat_Helmholtz_Tri2D(r,e,l,CA(c,2),u); EMat_Helmholtz_Tri2D(r,f,2*l,CA(c,2),u); EMat_Helmholtz_Tri2D(r,e,l,CA(c,2),u); double m[9]; for(int i=0;i<3;++i){for(int j=0;j<3;++j){ m[3*i+j]=e[i][j].real()-V*rdot(G[i],G[j],2); z[9+3*i+j]=e[i][j].imag()+m[3*i+j]-(f[i][j].real()-V*rdot(G[i],G[j],2))*4; }} for(int i=0;i<3;++i){for(int j=0;j<3;++j){ z[3*i+j]=m[3*i+j]-m[1]*(i==j?2:1); }} for(int i=0;i<3;++i){ double a=0,b=0; for(int j=0;j<3;++j){a-=e[i][j].real()*v[2*j]; b-=e[i][j].real()*v[2*j+1];} z[18+2*i]=r[i].real()-a; z[19+2*i]=r[i].imag()-b; } z[24]=0; z[25]=0;", "stiffness minus the consistent mass scaled by the squared wave number"),
 Z("EMat_SommerfeltRadiationBC_Line2D", "l:s, c:n2p2, v:n4", 16, "using C=std::complex<double>; C r[2],e[2][2],u[2]={C(v[0],v[1]),C(v[2],v[3])}; EMat_SommerfeltRadiationBC_Line2D(r,e,l,CA(c,2),u); double d[2]={c[0]-c[2],c[1]-c[3]},L=std::sqrt(rdot(d,d,2)); double s=e[0][0].imag()+e[0][1].imag(), h=2*e[0][1].imag()-e[0][0].imag(); z[0]=e[0][0].real(); z[1]=e[0][1].real(); z[2]=e[1][0].real(); z[3]=e[1][1].real(); z[4]=e[0][0].imag()-e[1][1].imag(); z[5]=e[0][1].imag()-e[1][0].imag(); double k=2*s/L; z[6]=h*2*L*k-3; for(int i=0;i<2;++i){C a=-e[i][0]*u[0]-e[i][1]*u[1]; z[7+2*i]=r[i].real()-a.real(); z[8+2*i]=r[i].imag()-a.imag();} C e2[2][2]; EMat_SommerfeltRadiationBC_Line2D(r,e2,2*l,CA(c,2),u); z[11]=(e2[0][0].imag()+e2[0][1].imag())*2-s; for(int i=12;i<16;++i){z[i]=0;}", "boundary mass scaled by the wave number, and its tangential correction"),
]))
ELK = lambda n, D_: "double K[%d]; for(int i=0;i<%d;++i){for(int j=0;j<%d;++j){for(int a=0;a<%d;++a){for(int b=0;b<%d;++b){K[((i*%d+j)*%d+a)*%d+b]=V*relas(G[i],G[j],a,b,%d,l,m);}}}} " % (n * n * D_ * D_, n, n, D_, D_, n, D_, D_, D_)
def NEWM(name, nn, D_, call, init):
    n = nn * D_
    return Z(name + ("" if init else "(later)"), "m:s, l:s, h:s, g:n%d, t:s, ga:s, be:s, u:n%d, v:n%d, a:n%d, c:n%dp%d" % (D_, n, n, n, nn, D_), n * n + n,
             REFT[D_] + ELK(nn, D_) + "double e[%d],r[%d]; " % (n * n, n) + call +
             " for(int i=0;i<%(nn)d;++i){for(int p=0;p<%(D)d;++p){ double s=h*V*g[p]/%(nn)d; for(int j=0;j<%(nn)d;++j){for(int q=0;q<%(D)d;++q){ int k=((i*%(nn)d+j)*%(D)d+p)*%(D)d+q, y=j*%(D)d+q; double M=p==q?(i==j?2:1)*h*V/%(d)d:0; z[k]=e[k]-M-be*t*t*K[k]; s-=K[k]*(%(st)s)+M*a[y]; }} z[%(o)d+i*%(D)d+p]=r[i*%(D)d+p]-s; }}" % dict(nn=nn, D=D_, d=12 if nn == 3 else 20, o=n * n, st="u[y]+t*v[y]+t*t/2*a[y]" if init else "u[y]"), "Newmark step: mass plus scaled stiffness, and the residual")
STAT = lambda nn, D_, grav: " for(int i=0;i<%(nn)d;++i){for(int p=0;p<%(D)d;++p){ double s=%(g)s; for(int j=0;j<%(nn)d;++j){for(int q=0;q<%(D)d;++q){ int k=((i*%(nn)d+j)*%(D)d+p)*%(D)d+q; z[k]=e[k]-K[k]; s-=K[k]*u[j*%(D)d+q]; }} z[%(o)d+i*%(D)d+p]=r[i*%(D)d+p]-s; }}" % dict(nn=nn, D=D_, o=(nn * D_) ** 2, g=grav)
# bending-free check of the quadratic tetrahedron: corner and edge functions in the order of the library
TP2 = "static const int ed[6][2]={{0,1},{1,2},{0,2},{0,3},{1,3},{2,3}}; "
def LIN(nn, val):
    return "double w_[%d]; for(int k=0;k<%d;++k){for(int i=0;i<3;++i){w_[3*k+i]=b[i]+A[3*i]*(%s)+A[3*i+1]*(%s)+A[3*i+2]*(%s);}} " % (3 * nn, nn, val(0), val(1), val(2))
F.append((["fem_solidlinear.h"], [
 Z("SetEmat_LinearSolid3<4>", "l:s, m:s, d:n12, w:s", 144, "double e[4][4][3][3]; SetEmat_LinearSolid3<4>(e,l,m,CA(d,3),w); for(int k=0;k<144;++k){int i=k/36,j=k/9%4,a=k/3%3,b=k%3; z[k]=e[i][j][a][b]-w*relas(d+3*i,d+3*j,a,b,3,l,m);}", "linear elasticity"),
 Z("EMat_SolidLinear_Static_Tet", "m:s, l:s, c:n4p3, u:n12", 156, REFT[3] + ELK(4, 3) + "double e[144],r[12]; EMat_SolidLinear_Static_Tet(OC(e,4,3,3),OA(r,3),m,l,CA(c,3),CA(u,3),false);" + STAT(4, 3, "0"), "linear elasticity"),
 Z("EMat_SolidLinear_Static_Tet(add)", "m:s, l:s, c:n4p3, u:n12, o:n12", 156, REFT[3] + ELK(4, 3) + "double e[144],r[12]; for(int i=0;i<144;++i){e[i]=0;} for(int i=0;i<12;++i){r[i]=o[i];} EMat_SolidLinear_Static_Tet(OC(e,4,3,3),OA(r,3),m,l,CA(c,3),CA(u,3),true); for(int i=0;i<12;++i){r[i]-=o[i];} " + STAT(4, 3, "0"), "linear elasticity added to a residual"),
 Z("EMat_SolidStaticLinear_Tri2D", "m:s, l:s, h:s, g:n2, u:n6, c:n3p2", 42, REFT[2] + ELK(3, 2) + "double e[36],r[6]; EMat_SolidStaticLinear_Tri2D(OA(r,2),OC(e,3,2,2),m,l,h,g[0],g[1],CA(u,2),CA(c,2));" + STAT(3, 2, "h*V*g[p]/3"), "linear elasticity and gravity in the plane"),
] + [NEWM("EMat_SolidDynamicLinear_Tri2D", 3, 2, "EMat_SolidDynamicLinear_Tri2D(OA(r,2),OC(e,3,2,2),m,l,h,g[0],g[1],t,ga,be,CA(u,2),CA(v,2),CA(a,2),CA(c,2),%s);" % ("true" if i else "false"), i) for i in (1, 0)]
  + [NEWM("EMat_SolidLinear_NewmarkBeta_MeshTet3D", 4, 3, "EMat_SolidLinear_NewmarkBeta_MeshTet3D(OA(r,3),OC(e,4,3,3),m,l,h,g[0],g[1],g[2],t,ga,be,CA(u,3),CA(v,3),CA(a,3),CA(c,3),%s);" % ("true" if i else "false"), i) for i in (1, 0)]
  + [
 Z("EMat_SolidLinear2_QuadOrth_GaussInt(patch)", "x:s, y:s, m:s, l:s, A:n4, b:n2", 8, "double e[64]; EMat_SolidLinear2_QuadOrth_GaussInt(OC(e,4,2,2),x,y,m,l,1); double X[4][2]={{0,0},{x,0},{x,y},{0,y}},S[4]={l*(A[0]+A[3])+2*m*A[0],m*(A[1]+A[2]),m*(A[1]+A[2]),l*(A[0]+A[3])+2*m*A[3]}; for(int i=0;i<4;++i){ double g[2]={(i==1||i==2?1:-1)*y/2,(i>1?1:-1)*x/2}; for(int p=0;p<2;++p){ double s=0; for(int j=0;j<4;++j){for(int q=0;q<2;++q){s+=e[((i*4+j)*2+p)*2+q]*(b[q]+A[2*q]*X[j][0]+A[2*q+1]*X[j][1]);}} z[2*i+p]=s-S[2*p]*g[0]-S[2*p+1]*g[1]; }}", "forces of a linear displacement"),
 Z("EMat_SolidLinear2_QuadOrth_GaussInt(xy)", "x:s, y:s, m:s, l:s, b:n2", 2, "double e[64]; EMat_SolidLinear2_QuadOrth_GaussInt(OC(e,4,2,2),x,y,m,l,1); double s=0; static const double h[4]={1,-1,1,-1}; for(int i=0;i<4;++i){for(int j=0;j<4;++j){for(int p=0;p<2;++p){for(int q=0;q<2;++q){s+=e[((i*4+j)*2+p)*2+q]*h[i]*h[j]*b[p]*b[q];}}}} double f=(l+2*m); z[0]=s-(b[0]*b[0]*(f*y/x+m*x/y)+b[1]*b[1]*(f*x/y+m*y/x))*4/3; double k=0; for(int i=0;i<4;++i){for(int j=0;j<4;++j){k+=e[((i*4+j)*2)*2+1]*h[i]*(j==1||j==2?1:-1);}} z[1]=k;", "energy of the bilinear modes"),
 Z("elemMatRes_LinearSolidGravity3_Static_Q1(patch)", "m:s, l:s, h:s, g:n3, o:n3, B:n9, A:n9, b:n3", 51, HEXC("Hex") + "double c[24],u[24],e[8][8][3][3],r[8][3]; for(int k=0;k<8;++k){for(int i=0;i<3;++i){c[3*k+i]=o[i]; for(int j=0;j<3;++j){c[3*k+i]+=B[3*i+j]*(1+s_[k][j])/2;}}} for(int k=0;k<8;++k){for(int i=0;i<3;++i){u[3*k+i]=b[i]; for(int j=0;j<3;++j){u[3*k+i]+=A[3*i+j]*c[3*k+j];}}} elemMatRes_LinearSolidGravity3_Static_Q1(m,l,h,g,CA(c,3),CA(u,3),e,r); "
   "double J=rdet3(B),C[9],S[9],tr=A[0]+A[4]+A[8]; for(int i=0;i<3;++i){ double x[3],y[3],w[3]; for(int k=0;k<3;++k){x[k]=B[3*k+(i+1)%3]; y[k]=B[3*k+(i+2)%3];} rcross(w,x,y); for(int k=0;k<3;++k){C[3*i+k]=w[k];} } for(int i=0;i<9;++i){S[i]=m*(A[i]+A[i%3*3+i/3])+(i%4==0?l*tr:0);} "
   "for(int k=0;k<8;++k){for(int i=0;i<3;++i){ double f=h*J*g[i]/8; for(int j=0;j<3;++j){for(int n=0;n<3;++n){f-=S[3*i+j]*C[3*n+j]*s_[k][n]/4;}} z[3*k+i]=r[k][i]-f; double y=0; for(int n=0;n<8;++n){for(int q=0;q<3;++q){y+=e[k][n][i][q]*u[3*n+q];}} z[24+3*k+i]=y+r[k][i]-h*J*g[i]/8; }} for(int i=48;i<51;++i){z[i]=0;}", "forces of a linear displacement of a parallelepiped, and gravity"),
 Z("matRes_LinearSolid_TetP2(patch)", "m:s, l:s, h:s, g:n3, c:n4p3, A:n9, b:n3", 60, REFT[3] + TP2 + "double e[10][10][3][3],r[10][3],X[30],u[30]; for(int k=0;k<10;++k){for(int i=0;i<3;++i){X[3*k+i]=k<4?c[3*k+i]:(c[3*ed[k-4][0]+i]+c[3*ed[k-4][1]+i])/2;}} for(int k=0;k<10;++k){for(int i=0;i<3;++i){u[3*k+i]=b[i]; for(int j=0;j<3;++j){u[3*k+i]+=A[3*i+j]*X[3*k+j];}}} matRes_LinearSolid_TetP2(e,r,V,l,m,g[0],g[1],g[2],h,G,CA(u,3)); "
   "double S[9],tr=A[0]+A[4]+A[8]; for(int i=0;i<9;++i){S[i]=m*(A[i]+A[i%3*3+i/3])+(i%4==0?l*tr:0);} for(int k=0;k<10;++k){for(int i=0;i<3;++i){ double f=h*V*g[i]*(k<4?-1:4)/20; if(k>=4){for(int j=0;j<3;++j){f-=S[3*i+j]*V*(G[ed[k-4][0]][j]+G[ed[k-4][1]][j]);}} z[3*k+i]=r[k][i]-f; double y=0; for(int n=0;n<10;++n){for(int q=0;q<3;++q){y+=e[k][n][i][q]*u[3*n+q];}} z[30+3*k+i]=y+r[k][i]-h*V*g[i]*(k<4?-1:4)/20; }}", "forces of a linear displacement, and gravity"),
 Z("matRes_LinearSolid_TetP2(entries)", "m:s, l:s, c:n4p3, u:n30", 18, REFT[3] + "double e[10][10][3][3],r[10][3]; matRes_LinearSolid_TetP2(e,r,V,l,m,0,0,0,0,G,CA(u,3)); for(int a=0;a<3;++a){for(int b=0;b<3;++b){z[3*a+b]=e[0][0][a][b]*5-3*V*relas(G[0],G[0],a,b,3,l,m); z[9+3*a+b]=e[0][1][a][b]*5+V*relas(G[0],G[1],a,b,3,l,m);}}", "stiffness of the corner functions"),
 Z("stress_LinearSolid_TetP2(quadratic)", "p0:s, p1:s, p2:s, v:s, l:s, m:s, g:n3, c:n4p3, A:n9, b:n3, Q:n18", 9, REFT[3] + TP2 + "static const int qi[6][2]={{0,0},{1,1},{2,2},{0,1},{1,2},{0,2}}; double X[30],u[30],S[3][3],P[3],w[4]={p0,p1,p2,1-p0-p1-p2}; for(int k=0;k<10;++k){for(int i=0;i<3;++i){X[3*k+i]=k<4?c[3*k+i]:(c[3*ed[k-4][0]+i]+c[3*ed[k-4][1]+i])/2;}} for(int i=0;i<3;++i){P[i]=0; for(int k=0;k<4;++k){P[i]+=w[k]*c[3*k+i];}} "
   "for(int k=0;k<10;++k){for(int i=0;i<3;++i){u[3*k+i]=b[i]; for(int j=0;j<3;++j){u[3*k+i]+=A[3*i+j]*X[3*k+j];} for(int j=0;j<6;++j){u[3*k+i]+=Q[6*i+j]*X[3*k+qi[j][0]]*X[3*k+qi[j][1]];}}} stress_LinearSolid_TetP2(S,w[0],w[1],w[2],w[3],v,l,m,g[0],g[1],g[2],G,CA(u,3)); "
   "double D[9]; for(int i=0;i<9;++i){D[i]=A[i];} for(int i=0;i<3;++i){for(int j=0;j<6;++j){D[3*i+qi[j][0]]+=Q[6*i+j]*P[qi[j][1]]; D[3*i+qi[j][1]]+=Q[6*i+j]*P[qi[j][0]];}} double tr=D[0]+D[4]+D[8]; for(int i=0;i<9;++i){z[i]=S[i/3][i%3]-m*(D[i]+D[i%3*3+i/3])-(i%4==0?l*tr:0);}", "exact stress of a quadratic displacement"),
]))
FLP = lambda nn, D_: dict(n=nn, D=D_, d=D_ + 1, N=nn * (D_ + 1), NN=(nn * (D_ + 1)) ** 2, m=12 if nn == 3 else 20)
FLE = "auto E=[&](int i,int j,int a,int b)->double{ return e[((i*%(n)d+j)*%(d)d+a)*%(d)d+b]; }; "
# the pressure block is a multiple T of the Laplacian: all other entries follow from T
def STOKES(name, nn, D_, call, dyn):
    p = FLP(nn, D_)
    s = REFT[D_] + "double e[%(NN)d],r[%(N)d]; " % p + call + FLE % p + "double gt=%s, C[%d], T=e[%d]/(gt*rdot(G[0],G[0],%d)); " % ("ga*t" if dyn else "1", p["NN"], D_ * (D_ + 1) + D_, D_)
    s += ("for(int i=0;i<%(n)d;++i){for(int j=0;j<%(n)d;++j){for(int a=0;a<%(d)d;++a){for(int b=0;b<%(d)d;++b){ double x=0,h=0; if(a<%(D)d&&b<%(D)d){ if(a==b){x=m*V*rdot(G[i],G[j],%(D)d);" + (" h=(i==j?2:1)*rho*V/%(m)d;" if dyn else "") + "} } else if(a<%(D)d){x=V*G[i][a]/%(n)d;} else if(b<%(D)d){x=V*G[j][b]/%(n)d;} else {x=T*rdot(G[i],G[j],%(D)d);} int k=((i*%(n)d+j)*%(d)d+a)*%(d)d+b; C[k]=x; z[k]=e[k]-gt*x-h; }}}} ") % p
    s += ("for(int i=0;i<%(n)d;++i){for(int a=0;a<%(d)d;++a){ double s=a<%(D)d?V*g[a]/%(n)d:0; for(int j=0;j<%(n)d;++j){for(int b=0;b<%(d)d;++b){ int k=((i*%(n)d+j)*%(d)d+a)*%(d)d+b,y=j*%(d)d+b; s-=" + ("C[k]*(u[y]+t*w[y])+(e[k]-gt*C[k])*w[y]" if dyn else "e[k]*u[y]") + "; }} z[%(NN)d+i*%(d)d+a]=r[i*%(d)d+a]-s; }} ") % p
    return Z(name, "m:s, " + ("rho:s, t:s, ga:s, w:n%(N)d, " % p if dyn else "") + "g:n%(D)d, c:n%(n)dp%(D)d, u:n%(N)d" % p, p["NN"] + p["N"], s, "viscosity, pressure gradient, divergence and a Laplacian for the pressure" + ("; mass and one implicit step" if dyn else ""))
def NAVIER(name, nn, D_, call):
    p = FLP(nn, D_)
    s = REFT[D_] + "double e[%(NN)d],r[%(N)d]; " % p + call + FLE % p + "double gt=ga*t, C[%d], T=e[%d]/(gt*rdot(G[0],G[0],%d))*rho/V; " % (p["NN"], D_ * (D_ + 1) + D_, D_)
    s += ("double va[%(D)d]; for(int a=0;a<%(D)d;++a){va[a]=0; for(int i=0;i<%(n)d;++i){va[a]+=u[i*%(d)d+a];}} "
          "for(int i=0;i<%(n)d;++i){for(int j=0;j<%(n)d;++j){ double gij=rdot(G[i],G[j],%(D)d), av=0,am=0,ai=0,aj=0; for(int a=0;a<%(D)d;++a){ av+=G[j][a]*(va[a]+u[i*%(d)d+a]); am+=G[i][a]*(va[a]+u[j*%(d)d+a]); ai+=G[i][a]*va[a]; aj+=G[j][a]*va[a]; } double su=ai*aj; for(int k=0;k<%(n)d;++k){ double p=0,q=0; for(int a=0;a<%(D)d;++a){p+=G[i][a]*u[k*%(d)d+a]; q+=G[j][a]*u[k*%(d)d+a];} su+=p*q; } "
          "for(int a=0;a<%(D)d;++a){for(int b=0;b<%(D)d;++b){ double x=V*relas(G[i],G[j],a,b,%(D)d,0,m),h=0; if(a==b){ x+=V*rho/%(m)d*av+T*V*rho/%(m)d*su; h=rho*V/%(m)d*((i==j?2:1)+T*am); } int k=((i*%(n)d+j)*%(d)d+a)*%(d)d+b; C[k]=x; z[k]=e[k]-gt*x-h; } "
          "int k=((i*%(n)d+j)*%(d)d+a)*%(d)d+%(D)d; C[k]=-V/%(n)d*G[i][a]+T*V*ai/%(n)d*G[j][a]; z[k]=e[k]-gt*C[k]; k=((i*%(n)d+j)*%(d)d+%(D)d)*%(d)d+a; C[k]=V/%(n)d*G[j][a]+T*V*aj/%(n)d*G[i][a]; double h=e[k]-gt*C[k],H=T*V/%(n)d*G[i][a]; z[k]=(h-H)*(h+H); } "
          "int k=((i*%(n)d+j)*%(d)d+%(D)d)*%(d)d+%(D)d; C[k]=V*T/rho*gij; z[k]=e[k]-gt*C[k]; }} "
          "for(int i=0;i<%(n)d;++i){for(int a=0;a<%(d)d;++a){ double s=a<%(D)d?V*rho*g[a]/%(n)d:0; for(int j=0;j<%(n)d;++j){for(int b=0;b<%(d)d;++b){ int k=((i*%(n)d+j)*%(d)d+a)*%(d)d+b,y=j*%(d)d+b; s-=C[k]*(u[y]+t*w[y])+(e[k]-gt*C[k])*w[y]; }} z[%(NN)d+i*%(d)d+a]=r[i*%(d)d+a]-s; }} ") % p
    return Z(name, "m:s, rho:s, t:s, ga:s, w:n%(N)d, g:n%(D)d, c:n%(n)dp%(D)d, u:n%(N)d" % p, p["NN"] + p["N"], s, "viscosity, advection, pressure, mass and their stabilisation, for one implicit step")
FLC = lambda f, D_, dyn: "%s(m,%s%s,%sCA(c,%d),CA(u,%d),%s%s,OA(r,%d)); " % (f, "rho," if dyn else "", ",".join("g[%d]" % i for i in range(D_)), "t,ga," if dyn else "", D_, D_ + 1, "CA(w,%d)," % (D_ + 1) if dyn else "", "OC(e,%d,%d,%d)" % (D_ + 1, D_ + 1, D_ + 1), D_ + 1)
F.append((["fem_stokes.h"], [STOKES(f, D_ + 1, D_, FLC(f, D_, dyn), dyn) for D_, f, dyn in ((2, "EMat_Stokes2D_Static_P1", 0), (2, "EMat_Stokes2D_Dynamic_P1", 1), (3, "MakeMat_Stokes3D_Static_P1", 0), (3, "MakeMat_Stokes3D_Dynamic_P1", 1))]))
F.append((["fem_navierstokes.h"], [NAVIER(f, D_ + 1, D_, FLC(f, D_, 1)) for D_, f in ((2, "EMat_NavierStokes2D_Dynamic_P1"), (3, "MakeMat_NavierStokes3D_Dynamic_P1"))]))

# ---------------------------------------------------------------- curves and surfaces against de Casteljau and Cox-de Boor
V = []
PQ = lambda p, n, D_: ",".join("V%d(%s+%d)" % (D_, p, D_ * i) for i in range(n))
CV = []
for D_ in (2, 3):
    dd = dict(D=D_)
    for n, nm, pl in ((4, "Cubic", "Polyline_BezierCubic"), (3, "Quadratic", "Polyline_BezierQuadratic")):
        A = PQ("a", n, D_)
        CV.append(Z("PointOn%sBezierCurve<%d>" % (nm, D_), "t:s, a:n%dp%d" % (n, D_), D_, "double r[3]; rbez(r,t,a,%d,%d); auto p=PointOn%sBezierCurve(t,%s); for(int i=0;i<%d;++i){z[i]=p[i]-r[i];}" % (n, D_, nm, A, D_), "de Casteljau"))
        CV.append(Z("Split_%sBezierCurve<%d>" % (nm, D_), "t:s, s:s, a:n%dp%d" % (n, D_), 2 * D_, "auto q=Split_%sBezierCurve(%s,t); double x[%d],y[3],w[3]; for(int k=0;k<2;++k){ for(int i=0;i<%d;++i){for(int d=0;d<%d;++d){x[%d*i+d]=q[k*%d+i][d];}} rbez(y,s,x,%d,%d); rbez(w,k==0?t*s:t+(1-t)*s,a,%d,%d); for(int d=0;d<%d;++d){z[%d*k+d]=y[d]-w[d];} }" % (nm, A, n * D_, n, D_, D_, n, n, D_, n, D_, D_, D_), "both halves run over the curve"))
        CV.append(Z("%s<%d>" % (pl, D_), "a:n%dp%d" % (n, D_), 4 * D_, "auto &v=*new std::vector<CVec%dd>(); %s(v,4,%s); double r[3]; for(int k=0;k<4;++k){ rbez(r,k/3.0,a,%d,%d); for(int i=0;i<%d;++i){z[%d*k+i]=v[k][i]-r[i];} }" % (D_, pl, A, n, D_, D_, D_), "uniform samples from end to end"))
        for g in (range(3) if n == 4 else (0, 1, 2, 3, 5)):
            CV.append(Z("Length_%sBezierCurve_Quadrature<%d>(straight,%d)" % (nm, D_, g), "o:p%d, e:v%d" % (D_, D_), 1, "double a[%d]; for(int k=0;k<%d;++k){for(int i=0;i<%d;++i){a[%d*k+i]=o[i]+k*e[i];}} z[0]=Length_%sBezierCurve_Quadrature(%s,%d)-%d*std::sqrt(rdot(e,e,%d));" % (n * D_, n, D_, D_, nm, A, g, n - 1, D_), "length of a straight segment"))
    A = PQ("a", 4, D_)
    CV.append(Z("getCubicBezierCurve<%d>" % D_, "a:n7p%d" % D_, 5 * D_, "auto &v=*new std::vector<CVec%(D)dd>(); auto &c=*new std::vector<CVec%(D)dd>{%(A)s}; getCubicBezierCurve(2,v,c); double r[3]; for(int k=0;k<4;++k){ rbez(r,(k%%2)/2.0,a+3*%(D)d*(k/2),4,%(D)d); for(int i=0;i<%(D)d;++i){z[%(D)d*k+i]=v[k][i]-r[i];} } for(int i=0;i<%(D)d;++i){z[4*%(D)d+i]=v[4][i]-a[6*%(D)d+i];}" % dict(D=D_, A=PQ("a", 7, D_)), "uniform samples of every piece"))
CRC = "auto c=[&](double t,int i)->double{ double x=0; for(int d=0;d<2;++d){} return x; }; "
for w, p, fn in (("Cubic", 3, "CoefficientsOfOpenUniformCubicBSpline"), ("Quadratic", 2, "CoefficientsOfOpenUniformBSpline_Quadratic")):
    n = p + 1
    for N in range(1, 7):
        for ix in range(N):
            kn = ",".join(str(min(max(ix + i - p, 0), N) - ix) for i in range(2 * p + 2))
            CV.append(Z("%s(%d/%d)" % (fn, ix, N), "t:s", n, "double C[%d][%d]; %s(C,%d,%d); const int k[%d]={%s}; double r[%d]; rbsp(r,%d,k,t); for(int i=0;i<%d;++i){z[i]=C[i][%d]; for(int j=%d;j>=0;--j){z[i]=z[i]*t+C[i][j];} z[i]-=r[i];}" % (n, n, fn, ix, N, 2 * p + 2, kn, n, p, n, p, p - 1), "Cox-de Boor recursion"))
for N in (1, 2, 3, 4):
    for p, fn in ((2, "Sample_QuadraticBsplineCurve"), (3, "Sample_CubicBsplineCurve"), (2, "Sample_BsplineCurve<CVec2d,3>"), (3, "Sample_BsplineCurve<CVec2d,4>")):
        m = N + p
        smp = [(i, i + s) for i in range(N) for s in (0.0, 0.375, 0.75)] + [(N - 1, float(N))]
        body = "auto &v=*new std::vector<CVec2d>{%s}; double r[%d]; " % (PQ("a", m, 2), p + 1)
        for q, (ix, t) in enumerate(smp):
            kn = ",".join(str(min(max(ix + i - p, 0), N) - ix) for i in range(2 * p + 2))
            body += "{ const int k[%d]={%s}; rbsp(r,%d,k,%r); CVec2d x=%s(%r,v); for(int i=0;i<2;++i){z[%d+i]=x[i]; for(int j=0;j<%d;++j){z[%d+i]-=r[j]*a[2*(%d+j)+i];}} } " % (2 * p + 2, kn, p, t - ix, fn, t, 2 * q, p + 1, 2 * q, ix)
        CV.append(Z("%s(%d)" % (fn, N), "a:n%dp2" % m, 2 * len(smp), body, "Cox-de Boor recursion at samples"))
for n in (3, 4):
    for N in (1, 2, 3, 4):
        p = n - 1
        for ix in range(N):
            kn = ",".join(str(min(max(ix + i - p, 0), N) - ix) for i in range(2 * p + 2))
            CV.append(Z("Sample_BsplineCurveSegment<%d>(%d/%d)" % (n, ix, N), "t:s, a:n%dp2" % n, 2, "const int k[%d]={%s}; CVec2d q[%d]={%s}; double r[%d]; rbsp(r,%d,k,t); CVec2d x=Sample_BsplineCurveSegment<CVec2d,%d>(t,k,q); for(int i=0;i<2;++i){z[i]=x[i]; for(int j=0;j<%d;++j){z[i]-=r[j]*a[2*j+i];}}" % (2 * p + 2, kn, n, PQ("a", n, 2), n, p, n, n), "Cox-de Boor recursion"))
CR = []
for m in (3, 4, 5):
    smp = [i + s for i in range(m - 1) for s in (0.0, 0.25, 0.5, 0.75)] + [float(m - 1)]
    body = "auto &v=*new std::vector<CVec2d>{%s}; auto tg=[&](int i,int d)->double{ return i==0?a[2+d]-a[d]:(i==%d?a[2*%d+d]-a[2*%d-2+d]:(a[2*i+2+d]-a[2*i-2+d])/2); }; " % (PQ("a", m, 2), m - 1, m - 1, m - 1)
    for q, t in enumerate(smp):
        ix = min(int(t), m - 2); s = t - ix
        body += "{ CVec2d x=Sample_CatmullRomSplineCurve<CVec2d>(%r,v); for(int d=0;d<2;++d){ double b[4]={a[%d+d],a[%d+d]+tg(%d,d)/3,a[%d+d]-tg(%d,d)/3,a[%d+d]},r; rbez(&r,%r,b,4,1); z[%d+d]=x[d]-r; } } " % (t, 2 * ix, 2 * ix, ix, 2 * ix + 2, ix + 1, 2 * ix + 2, s, 2 * q)
    CR.append(Z("Sample_CatmullRomSplineCurve(%d)" % m, "a:n%dp2" % m, 2 * len(smp), body, "Hermite interpolation with central tangents"))
CVH = ["geo_curve_cubic.h", "geo_curve_quadratic.h", "geo_curve_ndegree.h", "vec2.h", "vec3.h"]
for sel in ("CoefficientsOf", "Sample_Quadratic", "Sample_Cubic", "Sample_BsplineCurve<", "Sample_BsplineCurveSegment", "Polyline"):
    V.append((CVH, [k for k in CV if k.name.startswith(sel)]))
    CV = [k for k in CV if not k.name.startswith(sel)]
V.append((CVH, CR))
V.append((CVH, CV + [
 Z("Length_QuadraticBezierCurve_Analytic(straight)", "a:p3, e:v3", 2, "CVec3d p=V3(a),q=V3(a)+V3(e); double l=std::sqrt(rdot(e,e)); z[0]=Length_QuadraticBezierCurve_Analytic(p,p,q)-l; z[1]=0;", "a straight curve that starts at rest"),
 Z("Length_QuadraticBezierCurve_Analytic(folded)", "a:p3, e:v3", 2, "CVec3d p=V3(a),q=V3(a)+V3(e); double l=std::sqrt(rdot(e,e)); z[0]=Length_QuadraticBezierCurve_Analytic(p,q,p+V3(e)*1.5)-1.5*l; z[1]=0;", "a straight curve that slows down"),
 Z("Area_CubicBezierCurve2", "a:n4p2", 1, "auto c=[&](int i,int j)->double{return a[2*i]*a[2*j+1]-a[2*i+1]*a[2*j];}; z[0]=Area_CubicBezierCurve2(%s)-(6*c(0,1)+3*c(0,2)+c(0,3)+3*c(1,2)+3*c(1,3)+6*c(2,3))/20;" % PQ("a", 4, 2), "area swept from the origin"),
 Z("Area_QuadraticBezierCurve2", "a:n3p2", 1, "auto c=[&](int i,int j)->double{return a[2*i]*a[2*j+1]-a[2*i+1]*a[2*j];}; z[0]=Area_QuadraticBezierCurve2(%s)-(2*c(0,1)+c(0,2)+2*c(1,2))/6;" % PQ("a", 3, 2), "area swept from the origin"),
]))
V.append((["geo_surface_parametric.h", "vec3.h"], [
 Z("getPointCoonsQuad_CubicBezier" + sfx, "t:s, a:n12p3", 12, "CVec3d P[12]={%s}; double b[4][12]; const int e[4][4]={{0,1,2,3},{3,4,5,6},{9,8,7,6},{0,11,10,9}}; const double w[4][4]={{0,1,0,0},{1,0,0,1},{0,1,1,0},{0,0,0,1}}; for(int k=0;k<4;++k){ for(int i=0;i<4;++i){for(int d=0;d<3;++d){b[k][3*i+d]=a[3*e[k][i]+d];}} double r[3]; rbez(r,t,b[k],4,3); CVec3d x=getPointCoonsQuad_CubicBezier%s<CVec3d>(k%%2==0?t:(k==1?1.0:0.0),k%%2==1?t:(k==2?1.0:0.0),P); for(int d=0;d<3;++d){z[3*k+d]=x[d]-r[d];} }" % (PQ("a", 12, 3), sfx), "runs along the four edges") for sfx in ("", "Edge")] + [
 Z("getPointCoonsQuad_CubicBezier%s(middle)" % sfx, "u:s, v:s, a:n12p3", 3, "CVec3d P[12]={%s}; const int e[4][4]={{0,1,2,3},{9,8,7,6},{0,11,10,9},{3,4,5,6}}; double r[4][3]; for(int k=0;k<4;++k){ double b[12]; for(int i=0;i<4;++i){for(int d=0;d<3;++d){b[3*i+d]=a[3*e[k][i]+d];}} rbez(r[k],k<2?u:v,b,4,3); } CVec3d x=getPointCoonsQuad_CubicBezier%s<CVec3d>(u,v,P); for(int d=0;d<3;++d){ z[d]=x[d]-((1-v)*r[0][d]+v*r[1][d]+(1-u)*r[2][d]+u*r[3][d]-(1-u)*(1-v)*a[d]-u*(1-v)*a[9+d]-u*v*a[18+d]-(1-u)*v*a[27+d]); }" % (PQ("a", 12, 3), sfx), "ruled surfaces minus the bilinear one") for sfx in ("", "Edge")] + [
 Z("getPointHermetianQuad", "t:s, a:n12p3", 12, "CVec3d P[12]={%s}; const int e[4][4]={{0,1,2,3},{3,4,5,6},{9,8,7,6},{0,11,10,9}}; for(int k=0;k<4;++k){ double b[12]; for(int i=0;i<4;++i){for(int d=0;d<3;++d){b[3*i+d]=a[3*e[k][i]+d];}} double r[3]; rbez(r,t,b,4,3); CVec3d x=getPointHermetianQuad<CVec3d>(k%%2==0?t:(k==1?1.0:0.0),k%%2==1?t:(k==2?1.0:0.0),P); for(int d=0;d<3;++d){z[3*k+d]=x[d]-r[d];} }" % PQ("a", 12, 3), "runs along the four edges"),
 Z("getPointCoonsTri_CubicBezierEdge", "t:s, a:n9p3", 9, "CVec3d P[9]={%s}; const int e[3][4]={{3,4,5,6},{6,7,8,0},{0,1,2,3}}; for(int k=0;k<3;++k){ double b[12]; for(int i=0;i<4;++i){for(int d=0;d<3;++d){b[3*i+d]=a[3*e[k][i]+d];}} double r[3]; rbez(r,t,b,4,3); double w[3]; w[k]=0; w[(k+1)%%3]=1-t; w[(k+2)%%3]=t; CVec3d x=getPointCoonsTri_CubicBezierEdge<CVec3d>(w[0],w[1],w[2],P); for(int d=0;d<3;++d){z[3*k+d]=x[d]-r[d];} }" % PQ("a", 9, 3), "runs along the three edges"),
 Z("getPointSurfaceBezierCubic", "u:s, v:s, a:n16p3", 3, "double b[12],r[3]; for(int k=0;k<4;++k){rbez(b+3*k,v,a+12*k,4,3);} rbez(r,u,b,4,3); CVec3d x=getPointSurfaceBezierCubic<CVec3d>(u,v,%s); for(int d=0;d<3;++d){z[d]=x[d]-r[d];}" % PQ("a", 16, 3), "de Casteljau in both directions"),
 Z("getCubicBezierSurface", "a:n16p3", 27, "auto &c=*new std::vector<CVec3d>{%s}; auto &v=*new std::vector<CVec3d>(); getCubicBezierSurface(2,v,c); for(int i=0;i<3;++i){for(int j=0;j<3;++j){ double b[12],r[3]; for(int k=0;k<4;++k){rbez(b+3*k,j/2.0,a+12*k,4,3);} rbez(r,i/2.0,b,4,3); for(int d=0;d<3;++d){z[(3*i+j)*3+d]=v[3*i+j][d]-r[d];} }}" % PQ("a", 16, 3), "uniform samples"),
]))
V.append((["geo_curve_cubic.h", "geo_curve_quadratic.h", "vec2.h", "vec3.h"], [
 K("Tangent_CubicBezierCurve", "t:n1, a:n4p3, >o:n3, >g:n3n1", "  using namespace delfem2; CVec3d x=PointOnCubicBezierCurve(t[0],%s), y=Tangent_CubicBezierCurve(t[0],%s); put3(o,x); put3(g,y);" % (PQ("a", 4, 3), PQ("a", 4, 3)), laws=["d o[k] = g[kl] t[l]"]),
 K("Length_QuadraticCurve", "s:n1, b:v3, c:v3, >o:s, >g:n1", "  using namespace delfem2; double e[3],q[3],p[3]={0,0,0}; for(int i=0;i<3;++i){e[i]=b[i]*s[0]; q[i]=c[i]*s[0]*s[0];} double A=rdot(e,e),B=4*rdot(e,q),C=4*rdot(q,q); *o=Length_QuadraticCurve(V3(p),V3(e),V3(q))+%s+%s; double r=0; for(int i=0;i<3;++i){double x=b[i]+2*s[0]*c[i]; r+=x*x;} *o+=%s; g[0]=std::sqrt(r);" % (POS("B+2*std::sqrt(C)*std::sqrt(A)"), POS("B+2*C+2*std::sqrt(C)*std::sqrt(A+B+C)"), POS("s[0]")), laws=["d o = g[l] s[l]"]),
]))

# ---------------------------------------------------------------- assembly: the system is the sum of its elements
A = []
MESH = {"tri": (4, 3, [2, 0, 1, 1, 3, 2]), "tet": (5, 4, [3, 0, 2, 1, 1, 4, 2, 3]), "hex": (12, 8, [4, 5, 7, 6, 0, 1, 3, 2, 6, 7, 9, 8, 10, 11, 5, 4]), "bar": (4, 2, [2, 0, 3, 1]), "tet1": (4, 4, [3, 0, 2, 1]), "pts": (3, 1, [0, 1, 2]), "hex1": (8, 8, [4, 5, 7, 6, 0, 1, 3, 2])}


def ASM(name, mesh, sd, B, params, call, elem, note="assembled matrix and vector", T="double", clear=False, vec=False, ret=None, after=""):
    """z = assembled - (initial + sum over elements); call uses A, b, el, ne, np; elem fills e[n][n][B][B], r[n][B] from X[n][sd], ip"""
    NB, n, el = MESH[mesh]
    ne = len(el) // n
    if mesh == "bar":
        ne, el2 = 3, [2, 0, 0, 3, 3, 1]
    else:
        el2 = el
    nm, nv = NB * NB * B * B, NB * B
    cx = T != "double"
    ps = ", ".join(["q:s", "x:n%dp%d" % (NB, sd)] + ([params] if params else []))
    body = "static const unsigned el[%d]={%s}; static const unsigned ee[%d]={%s}; const int ne=%d, np=%d; (void)ne; (void)np; " % (len(el), ",".join(map(str, el)), len(el2), ",".join(map(str, el2)), len(el) // n, NB)
    body += "typedef %s T; auto &A=*new DenseM<T,%d,%d>(); T *M=new T[%d]; T R[%d]; " % (T, NB, B, nm, nv)
    body += "std::vector<T> bv(%d); T *b=bv.data(); " % nv
    body += "for(int i=0;i<%d;++i){A.v[i]=q*double(i%%7+1); M[i]=%s;} for(int i=0;i<%d;++i){b[i]=q*double(i+2); R[i]=%s;} " % (nm, "T(0)" if clear else "A.v[i]", nv, "T(0)" if clear else "b[i]")
    if name.startswith("MergeLinSys_Contact"):
        body += "struct PL : public CInput_Contact { const double *n; double penetrationNormal(double &a,double &b,double &c,double u,double v,double w) const { a=n[0]; b=n[1]; c=n[2]; return -(n[0]*u+n[1]*v+n[2]*w); } }; PL pl; pl.n=n; "
    if ret:
        body += "static const unsigned qd[4]={3,0,1,2}; double W=0; double WW=" + call + "; "
    else:
        body += call + "; "
    if vec:
        body += "b=bv.data(); "
    body += ("for(int k=0;k<%d;++k){ const unsigned *ip=ee+%d*k; double X[%d][%d]; for(int i=0;i<%d;++i){for(int d=0;d<%d;++d){X[i][d]=x[ip[i]*%d+d];}} T e[%d]%s; T r[%d]%s; %s "
             % (ne, n, n, sd, n, sd, sd, n, "[%d]" % n + ("[%d][%d]" % (B, B) if B > 1 else ""), n, "[%d]" % B if B > 1 else "", elem))
    body += "T *pe=(T*)e, *pr=(T*)r; for(int i=0;i<%d;++i){for(int a=0;a<%d;++a){ R[ip[i]*%d+a]+=pr[i*%d+a]; for(int j=0;j<%d;++j){for(int c=0;c<%d;++c){ M[((ip[i]*%d+ip[j])*%d+a)*%d+c]+=pe[((i*%d+j)*%d+a)*%d+c]; }}}} } " % (n, B, B, B, n, B, NB, B, B, n, B, B)
    body += after
    if cx:
        body += "for(int i=0;i<%d;++i){T d=A.v[i]-M[i]; z[2*i]=d.real(); z[2*i+1]=d.imag();} for(int i=0;i<%d;++i){T d=b[i]-R[i]; z[%d+2*i]=d.real(); z[%d+2*i+1]=d.imag();} " % (nm, nv, 2 * nm, 2 * nm)
        N = 2 * (nm + nv)
    else:
        body += "for(int i=0;i<%d;++i){z[i]=A.v[i]-M[i];} for(int i=0;i<%d;++i){z[%d+i]=b[i]-R[i];} " % (nm, nv, nm)
        N = nm + nv
        if ret:
            body += "z[%d]=WW-W; " % N
            N += 1
    return Z(name, ps, N, body, note)


F1 = lambda v, s: "T %s[8]; for(int i=0;i<%d;++i){%s[i]=%s[ip[i]];} " % (v, {"tri": 3, "tet": 4, "tet1": 4, "bar": 2}[s], v, v[0])
FV = lambda v, n, B: "double %s[%d][%d]; for(int i=0;i<%d;++i){for(int d=0;d<%d;++d){%s[i][d]=%s[ip[i]*%d+d];}} " % (v, n, B, n, B, v, v[0], B)
A.append((["ls_block_sparse.h", "fem_poisson.h"], [
 ASM("MergeLinSys_Poission_MeshTri2D", "tri", 2, 1, "al:s, so:s, v:n4", "MergeLinSys_Poission_MeshTri2D(A,b,al,so,x,np,el,ne,v)", F1("vv", "tri") + "EMat_Poisson_Tri2D(r,e,al,so,X,vv);"),
 ASM("MergeLinSys_Poission_MeshTet3D", "tet", 3, 1, "al:s, so:s, v:n5", "MergeLinSys_Poission_MeshTet3D(A,b,al,so,x,np,el,ne,v)", F1("vv", "tet") + "EMat_Poisson_Tet3D(r,e,al,so,X,vv);"),
 ASM("MergeLinSys_Diffusion_MeshTri2D", "tri", 2, 1, "al:s, rho:s, so:s, dt:s, ga:s, v:n4, w:n4", "MergeLinSys_Diffusion_MeshTri2D(A,b,al,rho,so,dt,ga,x,np,el,ne,v,w)", F1("vv", "tri") + F1("ww", "tri") + "EMat_Diffusion_Tri2D(r,e,al,so,dt,ga,rho,X,vv,ww);"),
 ASM("MergeLinSys_Diffusion_MeshTet3D", "tet", 3, 1, "al:s, rho:s, so:s, dt:s, ga:s, v:n5, w:n5", "MergeLinSys_Diffusion_MeshTet3D(A,b,al,rho,so,dt,ga,x,np,el,ne,v,w)", F1("vv", "tet") + F1("ww", "tet") + "EMat_Diffusion_Newmark_Tet3D(r,e,al,so,dt,ga,rho,X,vv,ww);"),
]))
A.append((["ls_block_sparse.h", "fem_helmholtz.h"], [
 ASM("MergeLinSys_Helmholtz_MeshTri2D", "tri", 2, 1, "wl:s, v:n8", "T v_[4]; for(int i=0;i<4;++i){v_[i]=T(v[2*i],v[2*i+1]);} MergeLinSys_Helmholtz_MeshTri2D(A,b,wl,x,np,el,ne,v_)", "T vv[3]; for(int i=0;i<3;++i){vv[i]=v_[ip[i]];} EMat_Helmholtz_Tri2D(r,e,wl,X,vv);", T="std::complex<double>"),
 ASM("MergeLinSys_SommerfeltRadiationBC_Polyline2D", "bar", 2, 1, "wl:s, v:n8", "T v_[4]; for(int i=0;i<4;++i){v_[i]=T(v[2*i],v[2*i+1]);} MergeLinSys_SommerfeltRadiationBC_Polyline2D(A,b,wl,x,np,el,4,v_)", "T vv[2]; for(int i=0;i<2;++i){vv[i]=v_[ip[i]];} EMat_SommerfeltRadiationBC_Line2D(r,e,wl,X,vv);", T="std::complex<double>"),
]))
MI = "double W=0; std::fill_n((double*)r,9,0.0); std::fill_n((double*)e,81,0.0); WdWddW_PlateBendingMITC3(W,r,e,X,vv,th,la,my); double G[3][2]; double S=rtri(G,&X[0][0]); for(int i=0;i<3;++i){r[i][0]=rho*S*th/3*gz; r[i][1]=0; r[i][2]=0;}"
A.append((["ls_block_sparse.h", "fem_mitc3.h", "femutil.h"], [
 ASM("MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(rest)", "tri", 2, 3, "th:s, la:s, my:s, rho:s, gz:s", "double v[12]={0}; MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(A,b,th,la,my,rho,gz,x,np,el,ne,v)", FV("vv", 3, 3) + MI),
 ASM("MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(matrix)", "tri", 2, 3, "th:s, la:s, my:s, rho:s, gz:s, v:n12", "MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(A,b,th,la,my,rho,gz,x,np,el,ne,v); for(int i=0;i<12;++i){b[i]=R[i];}", FV("vv", 3, 3) + MI + " std::fill_n((double*)r,9,0.0);", note="assembled matrix"),
]))
A.append((["ls_block_sparse.h", "fem_navierstokes.h"], [
 ASM("MergeLinSys_NavierStokes2D", "tri", 2, 3, "my:s, rho:s, g:n2, dt:s, ga:s, v:n12, w:n12", "MergeLinSys_NavierStokes2D(A,b,my,rho,g[0],g[1],dt,ga,x,np,el,ne,v,w)", FV("vv", 3, 3) + FV("ww", 3, 3) + "EMat_NavierStokes2D_Dynamic_P1(my,rho,g[0],g[1],dt,ga,X,vv,ww,e,r);"),
 ASM("MergeLinSys_NavierStokes3D_Dynamic", "tet1", 3, 4, "my:s, rho:s, g:n3, dt:s, ga:s, v:n16, w:n16", "std::vector<double> xx(x,x+12); std::vector<unsigned> ev(el,el+4); std::vector<double> va(v,v+16); std::vector<double> wa(w,w+16); MergeLinSys_NavierStokes3D_Dynamic(A,bv,my,rho,g[0],g[1],g[2],dt,ga,xx,ev,va,wa)", FV("vv", 4, 4) + FV("ww", 4, 4) + "MakeMat_NavierStokes3D_Dynamic_P1(my,rho,g[0],g[1],g[2],dt,ga,X,vv,ww,e,r);", clear=True, vec=True),
]))
STV = "std::vector<double> xx(x,x+15); std::vector<unsigned> ev(el,el+8); std::vector<double> va(v,v+20); std::vector<double> wa(w,w+20); "
A.append((["ls_block_sparse.h", "fem_stokes.h"], [
 ASM("MergeLinSys_StokesStatic2D", "tri", 2, 3, "my:s, g:n2, v:n12", "MergeLinSys_StokesStatic2D(A,b,my,g[0],g[1],x,np,el,ne,v)", FV("vv", 3, 3) + "EMat_Stokes2D_Static_P1(my,g[0],g[1],X,vv,e,r);"),
 ASM("MergeLinSys_StokesDynamic2D", "tri", 2, 3, "my:s, rho:s, g:n2, dt:s, ga:s, v:n12, w:n12", "MergeLinSys_StokesDynamic2D(A,b,my,rho,g[0],g[1],dt,ga,x,np,el,ne,v,w)", FV("vv", 3, 3) + FV("ww", 3, 3) + "EMat_Stokes2D_Dynamic_P1(my,rho,g[0],g[1],dt,ga,X,vv,ww,e,r);"),
 ASM("MergeLinSys_Stokes3D_Static", "tet", 3, 4, "my:s, rho:s, g:n3, v:n20, w:n20", STV + "MergeLinSys_Stokes3D_Static(A,bv,my,rho,g[0],g[1],g[2],xx,ev,va,wa)", FV("vv", 4, 4) + "MakeMat_Stokes3D_Static_P1(my,g[0],g[1],g[2],X,vv,e,r);", clear=True, vec=True),
 ASM("MergeLinSys_Stokes3D_Dynamic", "tet", 3, 4, "my:s, rho:s, g:n3, dt:s, ga:s, v:n20, w:n20", STV + "MergeLinSys_Stokes3D_Dynamic(A,bv,my,rho,g[0],g[1],g[2],dt,ga,xx,ev,va,wa)", FV("vv", 4, 4) + FV("ww", 4, 4) + "MakeMat_Stokes3D_Dynamic_P1(my,rho,g[0],g[1],g[2],dt,ga,X,vv,ww,e,r);", clear=True, vec=True),
]))
BEU = "double G[4][3]; double V=rtet(G,&X[0][0]); for(int i=0;i<4;++i){for(int j=0;j<4;++j){for(int a=0;a<3;++a){for(int c=0;c<3;++c){ e[i][j][a][c]=V*relas(G[i],G[j],a,c,3,la,my); }}}} "
A.append((["ls_block_sparse.h", "fem_solidlinear.h"], [
 ASM("MergeLinSys_SolidLinear_Static_MeshTri2D", "tri", 2, 2, "my:s, la:s, rho:s, g:n2, v:n8", "MergeLinSys_SolidLinear_Static_MeshTri2D(A,b,my,la,rho,g[0],g[1],x,np,el,ne,v)", FV("vv", 3, 2) + "EMat_SolidStaticLinear_Tri2D(r,e,my,la,rho,g[0],g[1],vv,X);"),
 ASM("MergeLinSys_SolidLinear_Static_MeshTet3D", "tet", 3, 3, "my:s, la:s, rho:s, g:n3, v:n15", "MergeLinSys_SolidLinear_Static_MeshTet3D(A,b,my,la,rho,g,x,np,el,ne,v)", FV("vv", 4, 3) + "double G[4][3]; double V=rtet(G,&X[0][0]); EMat_SolidLinear_Static_Tet(e,r,my,la,X,vv,false); for(int i=0;i<4;++i){for(int d=0;d<3;++d){r[i][d]+=V*rho*g[d]/4;}}"),
 ASM("MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D", "tri", 2, 2, "my:s, la:s, rho:s, g:n2, dt:s, ga:s, be:s, v:n8, w:n8, a:n8", "MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(A,b,my,la,rho,g[0],g[1],dt,ga,be,x,np,el,ne,v,w,a)", FV("vv", 3, 2) + FV("ww", 3, 2) + FV("aa", 3, 2) + "EMat_SolidDynamicLinear_Tri2D(r,e,my,la,rho,g[0],g[1],dt,ga,be,vv,ww,aa,X,true);"),
 ASM("MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D", "tet", 3, 3, "my:s, la:s, rho:s, g:n3, dt:s, ga:s, be:s, v:n15, w:n15, a:n15", "MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(A,b,my,la,rho,g,dt,ga,be,x,np,el,ne,v,w,a)", FV("vv", 4, 3) + FV("ww", 4, 3) + FV("aa", 4, 3) + "EMat_SolidLinear_NewmarkBeta_MeshTet3D(r,e,my,la,rho,g[0],g[1],g[2],dt,ga,be,vv,ww,aa,X,true);"),
 ASM("MergeLinSys_SolidLinear_BEuler_MeshTet3D", "tet", 3, 3, "my:s, la:s, rho:s, g:n3, dt:s, v:n15, w:n15", "MergeLinSys_SolidLinear_BEuler_MeshTet3D(A,b,my,la,rho,g,dt,x,np,el,ne,v,w)", FV("vv", 4, 3) + FV("ww", 4, 3) + BEU + "for(int i=0;i<4;++i){for(int a=0;a<3;++a){ double s=V*rho*g[a]/4; for(int j=0;j<4;++j){for(int c=0;c<3;++c){ s-=e[i][j][a][c]*(vv[j][c]+dt*ww[j][c]); }} r[i][a]=s/dt; }} for(int i=0;i<4;++i){for(int a=0;a<3;++a){ e[i][i][a][a]+=rho*V/4/(dt*dt); }}", note="backward Euler step of the linear solid"),
 ASM("MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D", "tet", 3, 3, "my:s, la:s, rho:s, g:n3, dt:s, v:n15, w:n15, O:n45", "auto &rr=*new std::vector<double>(O,O+45); MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(A,b,my,la,rho,g,dt,x,np,el,ne,v,w,rr)", FV("vv", 4, 3) + FV("ww", 4, 3) + BEU +
     "double f[4][4][3][3]; for(int i=0;i<4;++i){ const double *Q=O+9*ip[i]; for(int j=0;j<4;++j){for(int a=0;a<3;++a){for(int c=0;c<3;++c){ double s=0; for(int h=0;h<3;++h){for(int k2=0;k2<3;++k2){ s+=Q[3*a+h]*e[i][j][h][k2]*Q[3*c+k2]; }} f[i][j][a][c]=s; }}} } "
     "for(int i=0;i<4;++i){ const double *Q=O+9*ip[i]; for(int a=0;a<3;++a){ double s=V*rho*g[a]/4; for(int j=0;j<4;++j){for(int c=0;c<3;++c){ double p=X[j][c]+vv[j][c]+dt*ww[j][c]-rdot(Q+3*c,X[j],3); s-=f[i][j][a][c]*p; }} r[i][a]=s/dt; }} "
     "for(int i=0;i<4;++i){for(int j=0;j<4;++j){for(int a=0;a<3;++a){for(int c=0;c<3;++c){ e[i][j][a][c]=f[i][j][a][c]+(i==j&&a==c?rho*V/4/(dt*dt):0); }}}}", note="backward Euler step of the warped solid, element stiffness turned by the rotation of the row's node"),
]))
A.append((["ls_block_sparse.h", "fem_solidlinear.h"], [
 ASM("MergeLinSys_LinearSolid3D_Static_Q1", "hex1", 3, 3, "my:s, la:s, rho:s, g:n3, v:n24", "std::vector<double> xx(x,x+24); std::vector<unsigned> ev(el,el+8); std::vector<double> va(v,v+24); MergeLinSys_LinearSolid3D_Static_Q1(A,bv,my,la,rho,g,xx,ev,va)", FV("vv", 8, 3) + "elemMatRes_LinearSolidGravity3_Static_Q1(my,la,rho,g,X,vv,e,r);", clear=True, vec=True),
]))

CLQ = ("{ const unsigned ip[4]={3,0,1,2}; double C[4][3]={{0}},c[4][3]; for(int i=0;i<4;++i){for(int d=0;d<%(s)d;++d){C[i][d]=x[ip[i]*%(s)d+d];} for(int d=0;d<3;++d){c[i][d]=v[3*ip[i]+d];}} double w,r[4][3],e[4][4][3][3]; WdWddW_Bend(w,r,e,C,c,kb); W+=w; "
       "for(int i=0;i<4;++i){for(int a=0;a<3;++a){ R[ip[i]*3+a]+=r[i][a]; for(int j=0;j<4;++j){for(int c=0;c<3;++c){ M[((ip[i]*4+ip[j])*3+a)*3+c]+=e[i][j][a][c]; }}}} } ")
A.append((["ls_block_sparse.h", "femcloth.h"], [
 ASM("MergeLinSys_Cloth(%d)" % s, "tri", s, 3, "la:s, my:s, kb:s, v:n4p3", "MergeLinSys_Cloth(A,b,la,my,kb,x,np,%d,el,ne,qd,1,v)" % s,
     "double C[3][3]={{0}}; for(int i=0;i<3;++i){for(int d=0;d<%d;++d){C[i][d]=X[i][d];}} double w; " % s + FV("vv", 3, 3) + "WdWddW_CST(w,r,e,C,vv,la,my); W+=w;", ret=1, after=CLQ % dict(s=s), note="sum of membrane and bending terms") for s in (2, 3)] + [
 ASM("MergeLinSys_Contact", "pts", 3, 3, "n:v3, ks:s, h:s", "MergeLinSys_Contact(A,b,ks,h,pl,x,np)",
     "double w; WdWddW_Contact(w,r[0],e[0][0],X[0],ks,h,pl); W+=w;", ret=1, note="sum of the contact terms"),
]))
VV = lambda nm, p, n: "auto &%s=*new std::vector<CVec3d>{%s}; " % (nm, PQ(p, n, 3))
HAIR = "auto &S=*new DenseS<6,4>(); double M[576],R[24]; for(int i=0;i<576;++i){M[i]=S.v[i]=q*double(i%%7+1);} for(int i=0;i<24;++i){R[i]=S.vec_r[i]=q*double(i+2);} double W=0; std::vector<unsigned> rt{%s}; "
HEND = "for(int i=0;i<576;++i){z[i]=S.v[i]-M[i];} for(int i=0;i<24;++i){z[576+i]=S.vec_r[i]-R[i];} z[600]=WW-W;"
A.append((["fem_distance3.h", "fem_rod3_darboux.h", "hair_darboux_util.h", "hair_darboux_solver.h"], [
 Z("Merge_HairStretch", "q:s, p:n6p3, o:n6p3, s:s", 601, HAIR % "0,2,6" + VV("P", "p", 6) + VV("O", "o", 6) +
   "double WW=Merge_HairStretch(S,s,rt,P,O); const unsigned e[4][2]={{0,1},{2,3},{3,4},{4,5}}; for(int k=0;k<4;++k){ CVec3d d[2],p2[2]={P[e[k][0]],P[e[k][1]]}; CMat3d h[2][2]; double l[3]; rsub(l,o+3*e[k][0],o+3*e[k][1]); W+=WdWddW_SquareLengthLineseg3D(d,h,s,p2,std::sqrt(rdot(l,l))); "
   "for(int i=0;i<2;++i){for(int a=0;a<3;++a){ R[4*e[k][i]+a]-=d[i][a]; for(int j=0;j<2;++j){for(int c=0;c<3;++c){ M[((e[k][i]*6+e[k][j])*4+a)*4+c]+=h[i][j](a,c); }}}}} " + HEND, "sum over the segments of every strand"),
 Z("Merge_HairDarboux", "q:s, p:n6p3, o:n6p3, t:n6v3, u:n6v3, g:n3", 601, HAIR % "0,3,6" + VV("P", "p", 6) + VV("O", "o", 6) + VV("T", "t", 6) + VV("U", "u", 6) +
   "double WW=Merge_HairDarboux(S,g,rt,P,T,O,U); for(int k=0;k<2;++k){ CVec3d p3[3],o3[3],t2[2],u2[2]; for(int i=0;i<3;++i){p3[i]=P[3*k+i]; o3[i]=O[3*k+i];} for(int i=0;i<2;++i){t2[i]=T[3*k+i]; u2[i]=U[3*k+i];} double d[3][4],h[3][3][4][4]; W+=WdWddW_HairApprox(d,h,g,p3,t2,Darboux_Rod(o3,u2)); "
   "for(int i=0;i<3;++i){for(int a=0;a<4;++a){ R[4*(3*k+i)+a]-=d[i][a]; for(int j=0;j<3;++j){for(int c=0;c<4;++c){ M[(((3*k+i)*6+3*k+j)*4+a)*4+c]+=h[i][j][a][c]; }}}}} " + HEND, "sum over the hinges of every strand"),
]))
A = [(h, [k]) for h, ks in A for k in ks]

# ------------------------------------------------------------------ S: block sparse matrices and vectors (C22)
S = []
PU = "static const unsigned ci[4]={0,2,3,5}, rp[5]={2,1,0,1,0}; "            # 3 blocks, structure not symmetric, rows not sorted
PS = "static const unsigned ci[5]={0,2,4,6,8}, rp[8]={3,1,2,0,1,3,0,2}; "     # 4 blocks in a ring
PF = "static const unsigned ci[4]={0,2,4,6}, rp[6]={1,2,0,2,0,1}; "           # 3 blocks, all connected
NV = {"PU": (PU, 3, 5), "PS": (PS, 4, 8), "PF": (PF, 3, 6)}


def SP(name, pat, d, params, n, body, note, T="double", again=2, **k):
    """A block matrix of block size d with constant pattern and symbolic values; D0 is its dense form"""
    s, nb, nz = NV[pat]
    c = 2 if T != "double" else 1
    m = (nz + nb) * d * d
    val = "v[k0]" if c == 1 else "T(v[2*k0],v[2*k0+1])"
    head = ("typedef %s T; const int N=%d, d=%d, n=N*d; (void)n; " % (T, nb, d) + s +
            "CMatrixSparse<T> A; A.Initialize(N,d,true); A.SetPattern(ci,N+1,rp,%d); T D0[n][n]={}; " % nz +
            "for(int i=0;i<N;++i){for(int a=0;a<d;++a){for(int c=0;c<d;++c){ for(unsigned j=ci[i];j<ci[i+1];++j){ int k0=(j*d+a)*d+c; D0[i*d+a][rp[j]*d+c]=A.val_crs_[k0]=%s; } int k0=((%d+i)*d+a)*d+c; D0[i*d+a][i*d+c]=A.val_dia_[(i*d+a)*d+c]=%s; }}} " % (val, nz, val))
    return Z(name, "v:n%d%s" % (m * c, ", " + params if params else ""), n, head + body, note, again=again, **k)


# reads the matrix back as a dense one
RD = "T D1[n][n]={}; for(int i=0;i<N;++i){for(int a=0;a<d;++a){for(int c=0;c<d;++c){ for(unsigned j=ci[i];j<ci[i+1];++j){ D1[i*d+a][rp[j]*d+c]=A.val_crs_[(j*d+a)*d+c]; } D1[i*d+a][i*d+c]=A.val_dia_[(i*d+a)*d+c]; }}} "
RC = "T xx[n],yy[n]; for(int i=0;i<n;++i){ xx[i]=T(x[2*i],x[2*i+1]); yy[i]=T(y[2*i],y[2*i+1]); } T al(s[0],s[1]),be(s[2],s[3]); "
mv = []
for d in (1, 2, 3, 4, 5):
    n = 3 * d
    mv.append(SP("CMatrixSparse MatVec(%d)" % d, "PU", d, "x:n%d, y:n%d, al:s, be:s" % (n, n), n,
                 "double w[n]; for(int i=0;i<n;++i){w[i]=y[i];} A.MatVec(w,al,x,be); for(int i=0;i<n;++i){ double s=be*y[i]; for(int j=0;j<n;++j){s+=al*D0[i][j]*x[j];} z[i]=w[i]-s; }", "y = alpha A x + beta y"))
    mv.append(SP("CMatrixSparse MatTVec(%d)" % d, "PU", d, "x:n%d, y:n%d, al:s, be:s" % (n, n), n,
                 "double w[n]; for(int i=0;i<n;++i){w[i]=y[i];} A.MatTVec(w,al,x,be); for(int i=0;i<n;++i){ double s=be*y[i]; for(int j=0;j<n;++j){s+=al*D0[j][i]*x[j];} z[i]=w[i]-s; }", "y = alpha transpose(A) x + beta y"))
for d in (1, 2, 3):
    n = 3 * d
    for f, ix in (("MatVec", "D0[i][j]"), ("MatTVec", "D0[j][i]")):
        mv.append(SP("CMatrixSparse %s(complex %d)" % (f, d), "PU", d, "x:n%d, y:n%d, s:n4" % (2 * n, 2 * n), 2 * n, RC +
                     "T w[n]; for(int i=0;i<n;++i){w[i]=yy[i];} A.%s(w,al,xx,be); for(int i=0;i<n;++i){ T q=be*yy[i]; for(int j=0;j<n;++j){q+=al*%s*xx[j];} q=w[i]-q; z[2*i]=q.real(); z[2*i+1]=q.imag(); }" % (f, ix), "same over the complex numbers", T="std::complex<double>"))
mv.append(SP("CMatrixSparse MatVecDegenerate", "PU", 1, "x:n9, y:n9, al:s, be:s", 9,
             "double w[9]; for(int i=0;i<9;++i){w[i]=y[i];} A.MatVecDegenerate(w,3,al,x,be); for(int i=0;i<3;++i){for(int l=0;l<3;++l){ double s=be*y[3*i+l]; for(int j=0;j<3;++j){s+=al*D0[i][j]*x[3*j+l];} z[3*i+l]=w[3*i+l]-s; }}", "scalar matrix applied to every component"))
S.append((["ls_block_sparse.h"], mv))
md = []
MASK = {1: "1,0,0", 2: "0,1,0,0,1,1", 3: "0,0,1,1,1,0,0,0,0", 4: "1,0,0,1, 0,0,0,0, 0,1,0,0"}
for d in (1, 2, 3, 4):
    n = 3 * d
    F_ = "static const int fl[%d]={%s}; " % (n, MASK[d])
    md.append(SP("CMatrixSparse SetFixedBC(%d)" % d, "PU", d, "", n * n, F_ + "A.SetFixedBC(fl); " + RD +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ double e=(fl[i]||fl[j])?(i==j?1:0):D0[i][j]; z[i*n+j]=D1[i][j]-e; }}", "rows and columns of fixed unknowns become those of the identity"))
    md.append(SP("CMatrixSparse SetFixedBC_Row(%d)" % d, "PU", d, "", n * n, F_ + "A.SetFixedBC_Row(fl); " + RD +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ double e=(fl[i]&&i/d!=j/d)?0:D0[i][j]; z[i*n+j]=D1[i][j]-e; }}", "off-diagonal blocks lose the rows of fixed unknowns"))
    md.append(SP("CMatrixSparse SetFixedBC_Col(%d)" % d, "PU", d, "", n * n, F_ + "A.SetFixedBC_Col(fl); " + RD +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ double e=(fl[j]&&i/d!=j/d)?0:D0[i][j]; z[i*n+j]=D1[i][j]-e; }}", "off-diagonal blocks lose the columns of fixed unknowns"))
    md.append(SP("CMatrixSparse SetFixedBC_Dia(%d)" % d, "PU", d, "q:s", n * n, F_ + "A.SetFixedBC_Dia(fl,q); " + RD +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ double e=((fl[i]||fl[j])&&i/d==j/d)?(i==j?q:0):D0[i][j]; z[i*n+j]=D1[i][j]-e; }}", "diagonal blocks"))
    md.append(SP("CMatrixSparse AddDia(%d)" % d, "PU", d, "q:s, l:n3, g:s", n * n, "A.AddDia(q); A.AddDia_LumpedMass(l,g); " + RD +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ double e=D0[i][j]+(i==j?q+g*l[i/d]:0); z[i*n+j]=D1[i][j]-e; }}", "shift and lumped mass on the diagonal"))
    if d > 1:
        md.append(SP("CMatrixSparse operator=(%d)" % d, "PU", d, "", n * n, "CMatrixSparse<T> B; B=A; for(auto &e:A.val_crs_){e=7;} A.setZero(); double cz=0; for(auto e:A.val_crs_){cz+=e*e;} for(auto e:A.val_dia_){cz+=e*e;} " + RD.replace("A.val", "B.val").replace("rp[j]", "B.row_ptr_[j]").replace("ci[i", "B.col_ind_[i") +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ z[i*n+j]=D1[i][j]-D0[i][j]+cz; }}", "the copy keeps its values when the original is cleared, and clearing clears"))
    md.append(SP("MatSparse_ScaleBlk_LeftRight(%d)" % d, "PU", d, "l:n3", n * n, "MatSparse_ScaleBlk_LeftRight(A,l); " + RD +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ z[i*n+j]=D1[i][j]-l[i/d]*D0[i][j]*l[j/d]; }}", "S A S, one factor per block"))
    md.append(SP("MatSparse_ScaleBlkLen_LeftRight(%d)" % d, "PU", d, "l:n%d" % n, n * n, "MatSparse_ScaleBlkLen_LeftRight(A,l); " + RD +
                 "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ z[i*n+j]=D1[i][j]-l[i]*D0[i][j]*l[j]; }}", "S A S, one factor per unknown"))
for pat, d in (("PU", 1), ("PU", 2), ("PS", 1), ("PS", 2), ("PF", 3)):
    md.append(SP("CheckSymmetry(%s %d)" % (pat, d), pat, d, "", 1, "double s=0; for(int i=0;i<n;++i){for(int j=0;j<n;++j){ double e=D0[i][j]-D0[j][i]; bool a=false,b=i/d==j/d; for(unsigned k=ci[i/d];k<ci[i/d+1];++k){ if(int(rp[k])==j/d){a=true;} } if(a||b){ s+=e*e; } }} z[0]=CheckSymmetry(A)-s;", "sum of squares of A - transpose(A) over the stored entries"))
S.append((["ls_block_sparse.h"], md))
MB = "std::vector<unsigned> mb; static const unsigned %s; "
for_d = []
for d in (1, 2, 3):
    n = 3 * d
    EX = "for(int i=0;i<3;++i){for(int j=0;j<3;++j){for(int a=0;a<d;++a){for(int c=0;c<d;++c){ D0[ip[i]*d+a][jp[j]*d+c]+=2*e[((i*3+j)*d+a)*d+c]; }}}} " + RD + "z[n*n]=0; for(auto k:mb){ if(k!=UINT_MAX){z[n*n]=1;} } if(!o1||!o2){z[n*n]+=2;} for(int i=0;i<n;++i){for(int j=0;j<n;++j){ z[i*n+j]=D1[i][j]-D0[i][j]; }}"
    for_d.append(SP("Merge(square %d)" % d, "PF", d, "e:n%d" % (9 * d * d), n * n + 1, MB % "ip[3]={2,0,1}, *jp=ip" +
                    "double E[3][3][d][d]; for(int i=0;i<9*d*d;++i){(&E[0][0][0][0])[i]=e[i];} bool o1=Merge<3,3,d,d,double>(A,ip,jp,E,mb), o2=Merge<3,3,d,d,double>(A,ip,jp,E,mb); " + EX, "every block goes to its row and column, twice adds twice, the work buffer is left clean"))
    for_d.append(SP("Mearge(square %d)" % d, "PF", d, "e:n%d" % (9 * d * d), n * n + 1, MB % "ip[3]={2,0,1}, *jp=ip" +
                    "bool o1=Mearge<double>(A,3,ip,3,jp,d*d,e,mb), o2=Mearge<double>(A,3,ip,3,jp,d*d,e,mb); " + EX, "same with sizes known at run time"))
    for_d.append(SP("Merge(permuted %d)" % d, "PF", d, "e:n%d" % (9 * d * d), n * n + 1, MB % "ip[3]={2,0,1}, jp[3]={1,2,0}" +
                    "double E[3][3][d][d]; for(int i=0;i<9*d*d;++i){(&E[0][0][0][0])[i]=e[i];} bool o1=Merge<3,3,d,d,double>(A,ip,jp,E,mb), o2=Merge<3,3,d,d,double>(A,ip,jp,E,mb); " + EX, "rows and columns in different orders"))
    for_d.append(SP("Mearge(permuted %d)" % d, "PF", d, "e:n%d" % (9 * d * d), n * n + 1, MB % "ip[3]={2,0,1}, jp[3]={1,2,0}" +
                    "bool o1=Mearge<double>(A,3,ip,3,jp,d*d,e,mb), o2=Mearge<double>(A,3,ip,3,jp,d*d,e,mb); " + EX, "same with sizes known at run time"))
    ER = "for(int i=0;i<2;++i){for(int j=0;j<3;++j){for(int a=0;a<d;++a){for(int c=0;c<d;++c){ D0[ip[i]*d+a][jp[j]*d+c]+=e[((i*3+j)*d+a)*d+c]; }}}} " + RD + "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ z[i*n+j]=D1[i][j]-D0[i][j]; }}"
    for_d.append(SP("Merge(2x3 %d)" % d, "PF", d, "e:n%d" % (6 * d * d), n * n, MB % "ip[2]={2,1}, jp[3]={1,2,0}" +
                    "double E[2][3][d][d]; for(int i=0;i<6*d*d;++i){(&E[0][0][0][0])[i]=e[i];} Merge<2,3,d,d,double>(A,ip,jp,E,mb); " + ER, "rectangular element matrix"))
    for_d.append(SP("Mearge(2x3 %d)" % d, "PF", d, "e:n%d" % (6 * d * d), n * n, MB % "ip[2]={2,1}, jp[3]={1,2,0}" +
                    "Mearge<double>(A,2,ip,3,jp,d*d,e,mb); " + ER, "rectangular element matrix, sizes known at run time"))
    if d == 1:
        for_d.append(SP("Merge(scalar)", "PF", 1, "e:n9", n * n + 1, MB % "ip[3]={2,0,1}, jp[3]={1,2,0}" +
                        "double E[3][3]; for(int i=0;i<9;++i){(&E[0][0])[i]=e[i];} bool o1=Merge<3,3,double>(A,ip,jp,E,mb), o2=Merge<3,3,double>(A,ip,jp,E,mb); " + EX, "scalar element matrix"))
        for_d.append(SP("Merge(scalar 2x3)", "PF", 1, "e:n6", n * n, MB % "ip[2]={2,1}, jp[3]={1,2,0}" +
                        "double E[2][3]; for(int i=0;i<6;++i){(&E[0][0])[i]=e[i];} Merge<2,3,double>(A,ip,jp,E,mb); " + ER, "scalar rectangular element matrix"))
S.append((["ls_block_sparse.h"], for_d))
ms = []
for d, fl in ((1, "~0u,~0u,0"), (1, "2,~0u,~0u"), (2, "~0u,~0u,0,~0u,0,1"), (2, "4,~0u,~0u,1,~0u,~0u"), (3, "~0u,~0u,~0u,0,~0u,2,0,~0u,~0u")):
    n = 3 * d
    FL = "static const unsigned ms[%d]={%s}; " % (n, fl)
    ms.append(SP("SetMasterSlave(%d: %s)" % (d, fl.replace("~0u", "-")), "PF", d, "", n * n, FL + "SetMasterSlave(A,ms); " + RD +
                 "double P[n][n]={}; for(int i=0;i<n;++i){ P[i][ms[i]==UINT_MAX?i:ms[i]]=1; } for(int i=0;i<n;++i){for(int j=0;j<n;++j){ double s=0; for(int k=0;k<n;++k){for(int l=0;l<n;++l){ if(P[k][i]!=0&&P[l][j]!=0){ s+=D0[k][l]; } }} if(ms[i]!=UINT_MAX||ms[j]!=UINT_MAX){ s=(i==j)?1:0; } z[i*n+j]=D1[i][j]-s; }}",
                 "transpose(P) A P for the map P of slaves to masters, identity on the slaves"))
    ms.append(Z("setRHS_MasterSlave(%d: %s)" % (d, fl.replace("~0u", "-")), "b:n%d" % n, n, "const int n=%d; " % n + FL + "double w[n],e[n]={}; for(int i=0;i<n;++i){w[i]=b[i];} setRHS_MasterSlave(w,n,ms); for(int i=0;i<n;++i){ e[ms[i]==UINT_MAX?i:ms[i]]+=b[i]; } for(int i=0;i<n;++i){z[i]=w[i]-e[i];}", "transpose(P) b"))
S.append((["ls_masterslave.h"], ms))
vv = []
VX = "std::vector<double> %s; "
for nm, mask in (("none", "0,0,0,0,0"), ("some", "0,1,0,2,0")):
    FLG = "static const int fl_[5]={%s}; std::vector<int> fl(fl_,fl_+5); std::vector<double> X(x,x+5),Y(y,y+5),Z_(w,w+5),W(u,u+5); " % mask
    for fn, call, ex in (("XPlusAY", "XPlusAY(X,5,fl,s[0],Y)", "s[0]*y[i]"), ("XPlusAYBZ", "XPlusAYBZ(X,5,fl,s[0],Y,s[1],Z_)", "s[0]*y[i]+s[1]*w[i]"), ("XPlusAYBZCW", "XPlusAYBZCW(X,5,fl,s[0],Y,s[1],Z_,s[2],W)", "s[0]*y[i]+s[1]*w[i]+s[2]*u[i]")):
        vv.append(Z("%s(%s fixed)" % (fn, nm), "x:n5, y:n5, w:n5, u:n5, s:n3", 5, FLG + call + "; for(int i=0;i<5;++i){ z[i]=X[i]-x[i]-(fl_[i]?0:%s); }" % ex, "update of the free unknowns only"))
    vv.append(Z("setRHS_Zero(%s fixed)" % nm, "x:n5", 10, "static const int fl_[5]={%s}; std::vector<int> fl(fl_,fl_+5); std::vector<double> X(x,x+5); setRHS_Zero(X,fl,0); for(int i=0;i<5;++i){ z[i]=X[i]-(fl_[i]?0:x[i]); } typedef std::complex<double> C; std::vector<C> V(5); for(int i=0;i<5;++i){V[i]=C(x[i],x[4-i]);} setRHS_Zero(V,fl,0); for(int i=0;i<5;++i){ C e=V[i]-(fl_[i]?C(0):C(x[i],x[4-i])); z[5+i]=e.real()*x[0]+e.imag(); }" % mask, "fixed entries cleared, others kept"))
    vv.append(Z("XPlusAY(complex %s fixed)" % nm, "x:n10, y:n10, s:n2", 10, "static const int fl_[5]={%s}; std::vector<int> fl(fl_,fl_+5); typedef std::complex<double> C; std::vector<C> X(5),Y(5); for(int i=0;i<5;++i){X[i]=C(x[2*i],x[2*i+1]); Y[i]=C(y[2*i],y[2*i+1]);} C al(s[0],s[1]); XPlusAY(X,5,fl,al,Y); for(int i=0;i<5;++i){ C e=C(x[2*i],x[2*i+1])+(fl_[i]?C(0):al*Y[i])-X[i]; z[2*i]=e.real(); z[2*i+1]=e.imag(); }" % mask, "complex update of the free unknowns only"))
vv += [
 Z("AXPY", "x:n5, y:n5, s:s", 10, "std::vector<double> X(x,x+5),Y(y,y+5); double w[5]; for(int i=0;i<5;++i){w[i]=y[i];} AXPY(s,X,Y); AXPY(s,x,w,5); for(int i=0;i<5;++i){z[i]=Y[i]-y[i]-s*x[i]; z[5+i]=w[i]-y[i]-s*x[i];}", "y + a x"),
 Z("ScaleX, NormalizeX", "x:n5, s:s", 11, "double w[5],u[5],q=0; for(int i=0;i<5;++i){w[i]=u[i]=x[i];} ScaleX(w,s,5); NormalizeX(u,5); for(int i=0;i<5;++i){z[i]=w[i]-s*x[i]; q+=u[i]*u[i];} for(int i=0;i<5;++i){z[5+i]=u[i]*x[(i+1)%5]-u[(i+1)%5]*x[i];} z[10]=q-1;", "scaled; normalised: parallel and of length one"),
 Z("OrthogonalizeToUnitVectorX", "x:n5, y:n5", 6, "double w[5],u[5],s=0,d=0; for(int i=0;i<5;++i){u[i]=x[i]; w[i]=y[i];} NormalizeX(u,5); OrthogonalizeToUnitVectorX(w,u,5); for(int i=0;i<5;++i){s+=w[i]*u[i]; d+=y[i]*u[i];} z[0]=s; for(int i=0;i<5;++i){z[1+i]=w[i]+d*u[i]-y[i];}", "removes the component along the unit vector"),
 Z("DotX, Dot, Distance", "x:n5, y:n5", 3, "std::vector<double> X(x,x+5),Y(y,y+5); double s=0,q=0; for(int i=0;i<5;++i){s+=x[i]*y[i]; q+=(x[i]-y[i])*(x[i]-y[i]);} z[0]=DotX(x,y,5)-s; z[1]=Dot(X,Y)-s; z[2]=Distance(X,Y)-q;", "inner product; distance is the sum of squares"),
 Z("DotX, Dot, MultSumX (complex)", "x:n10, y:n10", 6, "typedef std::complex<double> C; std::vector<C> X(5),Y(5); double a=0,b=0,c=0,d=0; for(int i=0;i<5;++i){ double p=x[2*i],q=x[2*i+1],r=y[2*i],s=y[2*i+1]; X[i]=C(p,q); Y[i]=C(r,s); a+=p*r+q*s; b+=q*r-p*s; c+=p*r-q*s; d+=p*s+q*r; } C e=DotX(X.data(),Y.data(),5)-C(a,b), f=Dot(X,Y)-C(a,b), g=MultSumX(X.data(),Y.data(),5)-C(c,d); z[0]=e.real(); z[1]=e.imag(); z[2]=f.real(); z[3]=f.imag(); z[4]=g.real(); z[5]=g.imag();", "sesquilinear and bilinear products"),
 Z("MatVec, MatTVec (dense)", "a:n12, x:n4, y:n3, w:n4, s:n2", 7, "double r[3],t[4]; for(int i=0;i<4;++i){t[i]=w[i];} MatVec(r,a,3,4,x); MatTVec(t,s[0],a,3,4,y,s[1]); for(int i=0;i<3;++i){ double e=0; for(int j=0;j<4;++j){e+=a[4*i+j]*x[j];} z[i]=r[i]-e; } for(int j=0;j<4;++j){ double e=s[1]*w[j]; for(int i=0;i<3;++i){e+=s[0]*a[4*i+j]*y[i];} z[3+j]=t[j]-e; }", "A x and alpha transpose(A) x + beta y"),
]
S.append((["vecxitrsol.h"], vv))
S.append((["view_vectorx.h", "ls_block_sparse.h"], [
 Z("ViewAsVectorX", "x:n5, y:n5, s:s", 26, "double a[5],b[5],c[5],e[5]; for(int i=0;i<5;++i){a[i]=b[i]=c[i]=y[i]; e[i]=x[i];} ViewAsVectorXd X(e,5),P(a,5),Q(b,5),R(c,5); AddScaledVec(P,s,X); ScaleAndAddVec(Q,s,X); R=X; double d=0; for(int i=0;i<5;++i){d+=x[i]*y[i]; z[i]=a[i]-y[i]-s*x[i]; z[5+i]=b[i]-s*y[i]-x[i]; z[10+i]=c[i]-x[i];} std::vector<double> yv(y,y+5); ViewAsVectorXd Y(yv); z[15]=Dot(X,Y)-d; X.setZero(); for(int i=0;i<5;++i){z[16+i]=e[i]; z[21+i]=c[i]-x[i];}", "views behave as vectors, assignment copies values"),
 SP("AddMatVec", "PU", 2, "x:n6, y:n6, al:s, be:s", 6, "double w[6],u[6]; for(int i=0;i<6;++i){w[i]=y[i]; u[i]=x[i];} ViewAsVectorXd Y(w,6),X(u,6); AddMatVec(Y,be,al,A,X); for(int i=0;i<n;++i){ double s=be*y[i]; for(int j=0;j<n;++j){s+=al*D0[i][j]*x[j];} z[i]=w[i]-s; }", "y = beta y + alpha A x"),
]))
S = [(h, [k]) if "itr" not in h[0] else (h, ks) for h, ks in S for k in (ks if "itr" not in h[0] else [0])]

# ------------------------------------------------------------------ L: linear solvers (C24)
L = []
ZL = lambda *a, **k: Z(*a, again=2, **k)


def BAND(name, cls, d, nb, w, params, pre, fix, note):
    """A banded block matrix filled through GetValuePointer, decomposed and solved; D0 is its dense form"""
    n = nb * d
    m = sum(1 for i in range(nb) for j in range(nb) if abs(i - j) <= w) * d * d
    return ZL(name, "v:n%d, b:n%d%s" % (m, n, params), n,
              "const int N=%d, d=%d, n=N*d; double D0[n][n]={}; %s<d> A; A.Initialize(N); A.setZero(); int k0=0; for(int i=0;i<N;++i){for(int j=0;j<N;++j){ double *p=A.GetValuePointer(i,j); if(i-j>%d||j-i>%d){ continue; } for(int a=0;a<d;++a){for(int c=0;c<d;++c){ p[a*d+c]=v[k0]; D0[i*d+a][j*d+c]=v[k0]; ++k0; }} }} " % (nb, d, cls, w, w) + pre +
              fix + "std::vector<double> r(b,b+n); A.Decompose(); A.Solve(r); for(int i=0;i<n;++i){ double s=-b[i]; for(int j=0;j<n;++j){ s+=D0[i][j]*r[j]; } z[i]=s; }", note)


FIX = "static const int fl[][2]={%s}; for(auto &f:fl){ A.FixBC(f[0],f[1]); for(int j=0;j<n;++j){ D0[f[0]*d+f[1]][j]=D0[j][f[0]*d+f[1]]=0; } D0[f[0]*d+f[1]][f[0]*d+f[1]]=1; } "
tri, pen = [], []
for d, nb in ((1, 3), (1, 5), (2, 3), (2, 4), (3, 3), (3, 4), (4, 3), (5, 3)):
    tri.append(BAND("BlockTriDiagonalMatrix<%d>(%d blocks)" % (d, nb), "BlockTriDiagonalMatrix", d, nb, 1, "", "", "", "the solution solves the system"))
for d, nb, f in ((1, 5, "{0,0},{3,0}"), (2, 4, "{0,1},{2,0}"), (3, 3, "{1,2},{2,0},{2,1}"), (4, 3, "{0,0},{1,3}")):
    tri.append(BAND("BlockTriDiagonalMatrix<%d>(fixed)" % d, "BlockTriDiagonalMatrix", d, nb, 1, "", "", FIX % f, "with fixed unknowns"))
tri.append(ZL("BlockTriDiagonalMatrix Merge", "e:n%d" % (3 * 16), 6 * 6, "const int N=4, d=2; (void)N; BlockTriDiagonalMatrix<2> A; A.Initialize(4); A.setZero(); double D0[8][8]={}; for(int q=0;q<3;++q){ double E[2][2][2][2]; for(int i=0;i<16;++i){(&E[0][0][0][0])[i]=e[q*16+i];} A.Merge(q,E); for(int i=0;i<2;++i){for(int j=0;j<2;++j){for(int a=0;a<2;++a){for(int c=0;c<2;++c){ D0[(q+i)*2+a][(q+j)*2+c]+=E[i][j][a][c]; }}}} } int k0=0; for(int i=0;i<4;++i){for(int j=0;j<4;++j){ double *p=A.GetValuePointer(i,j); if(i-j>1||j-i>1){continue;} if(k0<36){ for(int k=0;k<4;++k){ z[k0++]=p[k]-D0[i*2+k/2][j*2+k%2]; } } }}", "element matrices go to their blocks"))
for d, nb in ((1, 4), (1, 5), (1, 6), (2, 4), (2, 5), (3, 4), (4, 4)):
    pen.append(BAND("BlockPentaDiagonalMatrix<%d>(%d blocks)" % (d, nb), "BlockPentaDiagonalMatrix", d, nb, 2, "", "", "", "the solution solves the system"))
for d, nb, f in ((1, 6, "{0,0},{3,0}"), (2, 5, "{0,1},{2,0},{4,0}"), (3, 4, "{1,2},{3,0},{3,1}")):
    pen.append(BAND("BlockPentaDiagonalMatrix<%d>(fixed)" % d, "BlockPentaDiagonalMatrix", d, nb, 2, "", "", FIX % f, "with fixed unknowns"))
pen.append(ZL("BlockPentaDiagonalMatrix Merge", "e:n%d" % (3 * 36), 76, "BlockPentaDiagonalMatrix<2> A; A.Initialize(5); A.setZero(); double D0[10][10]={}; for(int q=0;q<3;++q){ double E[3][3][2][2]; for(int i=0;i<36;++i){(&E[0][0][0][0])[i]=e[q*36+i];} A.Merge(q,E); for(int i=0;i<3;++i){for(int j=0;j<3;++j){for(int a=0;a<2;++a){for(int c=0;c<2;++c){ D0[(q+i)*2+a][(q+j)*2+c]+=E[i][j][a][c]; }}}} } int k0=0; for(int i=0;i<5;++i){for(int j=0;j<5;++j){ double *p=A.GetValuePointer(i,j); if(i-j>2||j-i>2){continue;} for(int k=0;k<4;++k){ z[k0++]=p[k]-D0[i*2+k/2][j*2+k%2]; } }}", "element matrices go to their blocks"))
for d, f in ((2, "{0,0},{3,1}"), (3, "{0,0},{0,1},{2,2}")):
    n = 4 * d
    m = 14 * d * d
    pen.append(ZL("LinearSystemSolver_BlockPentaDiagonal<%d>" % d, "v:n%d, b:n%d, g:s" % (m, n), n,
       "const int d=%d, n=4*d; LinearSystemSolver_BlockPentaDiagonal<d> S; S.Initialize(4); S.BeginMerge(); static const int fl[][2]={%s}; for(auto &f:fl){S.dof_bcflag[f[0]*d+f[1]]=1;} double D0[n][n]={}; int k0=0; for(unsigned i=0;i<4;++i){for(unsigned j=0;j<4;++j){ if(i>j+2||j>i+2){continue;} double E[1][1][d][d]; for(int k=0;k<d*d;++k){ (&E[0][0][0][0])[k]=v[k0]; D0[i*d+k/d][j*d+k%%d]=v[k0++]; } S.template Merge<1,1,d,d>(&i,&j,E); }} S.AddValueToDiagonal(2,1,g); D0[2*d+1][2*d+1]+=g; double c[n]; for(int i=0;i<n;++i){ S.vec_r[i]+=b[i]; c[i]=b[i]; } " % (d, f) +
       "for(auto &f:fl){ for(int j=0;j<n;++j){ D0[f[0]*d+f[1]][j]=D0[j][f[0]*d+f[1]]=0; } D0[f[0]*d+f[1]][f[0]*d+f[1]]=1; c[f[0]*d+f[1]]=0; } S.Solve(); for(int i=0;i<n;++i){ double s=-c[i]; for(int j=0;j<n;++j){ s+=D0[i][j]*S.vec_x[j]; } z[i]=s; }", "merge, fix, solve"))
for r, c in ((1, 3), (3, 1), (2, 3), (3, 2)):
    pen.append(ZL("LinearSystemSolver_BlockPentaDiagonal Merge(%dx%d)" % (r, c), "e:n%d, g:s" % (4 * r * c), 81, "const int R=%d, C=%d; LinearSystemSolver_BlockPentaDiagonal<3> S; S.Initialize(3); S.BeginMerge(); double E[2][2][R][C]; for(int i=0;i<4*R*C;++i){(&E[0][0][0][0])[i]=e[i];} const unsigned ir[2]={2,0}, ic[2]={1,2}; S.template Merge<2,2,R,C>(ir,ic,E); S.AddValueToDiagonal(1,2,g); "
       "double D[9][9]={}; for(int i=0;i<2;++i){for(int j=0;j<2;++j){for(int a=0;a<R;++a){for(int c=0;c<C;++c){ D[ir[i]*3+a][ic[j]*3+c]+=E[i][j][a][c]; }}}} D[5][5]+=g; for(int i=0;i<9;++i){for(int j=0;j<9;++j){ z[i*9+j]=S.dia.GetValuePointer(i/3,j/3)[(i%%3)*3+j%%3]-D[i][j]; }}" % (r, c), "a rectangular element block goes to its place"))
L.append((["ls_tridiagonal.h"], tri))
L.append((["ls_pentadiagonal.h"], pen))
PT = "static const unsigned ci[5]={0,1,3,5,6}, rp[6]={1,2,0,3,1,2}; "        # a chain of 4 blocks, rows not sorted
NV["PT"] = (PT, 4, 6)
PF4 = "static const unsigned ci[5]={0,3,6,9,12}, rp[12]={3,1,2,0,2,3,3,1,0,1,2,0}; "
NV["PF4"] = (PF4, 4, 12)
ilu = []
# members are public: the sorted pattern is written in directly (std::sort leaves loops that the compiler does not unroll)
SETP = ("P.nblk=A.nrowblk_; P.ndim=A.nrowdim_; P.colInd.assign(ci,ci+A.nrowblk_+1); P.rowPtr.assign(rs,rs+sizeof(rs)/sizeof(*rs)); P.valCrs.resize(sizeof(rs)/sizeof(*rs)*d*d); P.valDia.resize(A.nrowblk_*d*d); P.m_diaInd.resize(A.nrowblk_); "
        "for(unsigned i=0;i<A.nrowblk_;++i){ P.m_diaInd[i]=dg[i]; } ")
SORTED = {"PF": ([0, 2, 4, 6], [1, 2, 0, 2, 0, 1]), "PF4": ([0, 3, 6, 9, 12], [1, 2, 3, 0, 2, 3, 0, 1, 3, 0, 1, 2]), "PT": ([0, 1, 3, 5, 6], [1, 0, 2, 1, 3, 2])}


def IL0(pat):
    c, r = SORTED[pat]
    dg = [next((k for k in range(c[i], c[i + 1]) if r[k] > i), c[i + 1]) for i in range(len(c) - 1)]
    return "CPreconditionerILU<T> P; static const unsigned rs[]={%s}, dg[]={%s}; " % (",".join(map(str, r)), ",".join(map(str, dg))) + SETP + "P.CopyValue(A); P.Decompose(); "


for pat, d in (("PF", 1), ("PF4", 1), ("PT", 1), ("PF", 2), ("PT", 2), ("PF", 3), ("PT", 3), ("PF", 4), ("PT", 4), ("PF", 5)):
    s, nb, nz = NV[pat]
    n = nb * d
    ilu.append(SP("CPreconditionerILU(%s %d)" % (pat, d), pat, d, "b:n%d" % n, n, IL0(pat) + "double r[n]; for(int i=0;i<n;++i){r[i]=b[i];} P.SolvePrecond(r); for(int i=0;i<n;++i){ double s=-b[i]; for(int j=0;j<n;++j){s+=D0[i][j]*r[j];} z[i]=s; }", "where the pattern admits no fill the preconditioner is the inverse", again=9))
for pat in ("PF", "PT"):
    n = NV[pat][1]
    ilu.append(SP("CPreconditionerILU(complex %s)" % pat, pat, 1, "b:n%d" % (2 * n), 2 * n, IL0(pat) + "T r[n]; for(int i=0;i<n;++i){r[i]=T(b[2*i],b[2*i+1]);} P.SolvePrecond(r); for(int i=0;i<n;++i){ T s=-T(b[2*i],b[2*i+1]); for(int j=0;j<n;++j){s+=D0[i][j]*r[j];} z[2*i]=s.real(); z[2*i+1]=s.imag(); }", "same over the complex numbers", T="std::complex<double>", again=9))
    ilu.append(SP("CPreconditionerILU Degenerate(%s)" % pat, pat, 1, "b:n%d" % (3 * n), 3 * n, IL0(pat) + "double r[3*n]; for(int i=0;i<3*n;++i){r[i]=b[i];} P.ForwardSubstitutionDegenerate(r,3); P.BackwardSubstitutionDegenerate(r,3); for(int i=0;i<n;++i){for(int l=0;l<3;++l){ double s=-b[3*i+l]; for(int j=0;j<n;++j){s+=D0[i][j]*r[3*j+l];} z[3*i+l]=s; }}", "scalar factorisation applied to every component", again=9))
for pat, d in (("PF", 1), ("PT", 1), ("PF4", 1), ("PT", 2), ("PT", 3), ("PF", 4)):
    n = NV[pat][1] * d
    ilu.append(SP("CPreconditionerILU SetPattern0(%s %d)" % (pat, d), pat, d, "b:n%d" % n, n, "CPreconditionerILU<T> P; P.SetPattern0(A); P.CopyValue(A); P.Decompose(); double r[n]; for(int i=0;i<n;++i){r[i]=b[i];} P.SolvePrecond(r); for(int i=0;i<n;++i){ double s=-b[i]; for(int j=0;j<n;++j){s+=D0[i][j]*r[j];} z[i]=s; }", "the pattern taken from the matrix is its own, sorted", again=14))
NV["PR"] = ("static const unsigned ci[5]={0,2,4,6,8}, rp[8]={3,1,0,2,3,1,0,2}; ", 4, 8)        # a ring of 4 blocks
SORTED["PR"] = ([0, 2, 4, 6, 8], [1, 3, 0, 2, 1, 3, 0, 2])
SORTED["PR+"] = ([0, 2, 5, 7, 10], [1, 3, 0, 2, 3, 1, 3, 0, 1, 2])          # with the fill of its elimination
for d in (1, 2, 3, 4):
    n = 4 * d
    ilu.append(SP("CPreconditionerILU(ring with fill %d)" % d, "PR", d, "b:n%d" % n, n, IL0("PR+").replace("P.colInd.assign(ci,ci+A.nrowblk_+1)", "static const unsigned cf[]={0,2,5,7,10}; P.colInd.assign(cf,cf+5)") +
                  "double r[n]; for(int i=0;i<n;++i){r[i]=b[i];} P.SolvePrecond(r); for(int i=0;i<n;++i){ double s=-b[i]; for(int j=0;j<n;++j){s+=D0[i][j]*r[j];} z[i]=s; }", "with the fill stored the preconditioner is the inverse", again=9))
    # factors of the incomplete elimination: entries outside the pattern are dropped
    ref = ("const bool on[4][4]={{1,1,0,1},{1,1,1,0},{0,1,1,1},{1,0,1,1}}; double V[4][d][d]; double W[n][n]; for(int i=0;i<n;++i){for(int j=0;j<n;++j){W[i][j]=D0[i][j];}} "
           "for(int i=0;i<4;++i){ for(int k=0;k<i;++k){ if(!on[i][k]){continue;} double G[d][d]; for(int a=0;a<d;++a){for(int c=0;c<d;++c){ G[a][c]=0; for(int e=0;e<d;++e){ G[a][c]+=W[i*d+a][k*d+e]*V[k][e][c]; } }} "
           "for(int j=k+1;j<4;++j){ if(!on[i][j]||!on[k][j]){continue;} for(int a=0;a<d;++a){for(int c=0;c<d;++c){for(int e=0;e<d;++e){ W[i*d+a][j*d+c]-=G[a][e]*W[k*d+e][j*d+c]; }}} } } "
           "rinv<d>(&V[i][0][0],&W[i*d][i*d],n); } ")
    if d < 4:
        ilu.append(SP("CPreconditionerILU(ring %d)" % d, "PR", d, "b:n%d" % n, n, IL0("PR") + "double r[n]; for(int i=0;i<n;++i){r[i]=b[i];} P.SolvePrecond(r); " + ref +
                  "double y[n],w[n]; for(int i=0;i<4;++i){ double t[d]; for(int a=0;a<d;++a){ t[a]=b[i*d+a]; for(int j=0;j<i;++j){ if(on[i][j]){ for(int c=0;c<d;++c){ t[a]-=W[i*d+a][j*d+c]*y[j*d+c]; } } } } for(int a=0;a<d;++a){ y[i*d+a]=0; for(int c=0;c<d;++c){ y[i*d+a]+=V[i][a][c]*t[c]; } } } "
                  "for(int i=3;i>=0;--i){ double t[d]; for(int a=0;a<d;++a){ t[a]=0; for(int j=i+1;j<4;++j){ if(on[i][j]){ for(int c=0;c<d;++c){ t[a]+=W[i*d+a][j*d+c]*w[j*d+c]; } } } } for(int a=0;a<d;++a){ w[i*d+a]=y[i*d+a]; for(int c=0;c<d;++c){ w[i*d+a]-=V[i][a][c]*t[c]; } } } for(int i=0;i<n;++i){z[i]=r[i]-w[i];}", "fill outside the pattern is dropped, everything else is kept", again=9))
L.append((["!quiet", "ls_ilu_block_sparse.h"], ilu))
kry = []


def KRY(name, call, n, T, sym, pc, its, note, hist=True, exact=False, vec="std::vector<T> r(bb,bb+n),x(n); ", again=9, dh=""):
    """A Krylov solver on a dense matrix with symbolic entries: the residual it leaves is b - A x after `its` steps; zero after n of them"""
    c = 2 if T != "double" else 1
    m = n * n
    get = "a_[%d*i+j]" % n
    if sym:
        m = n * (n + 1) // 2
        get = "a_[(i<j?i:j)*%d-(i<j?i:j)*((i<j?i:j)-1)/2+(i<j?j-i:i-j)]" % n
    ld = lambda g, q: g if c == 1 else "T(%s,%s)" % (g.replace("a_[", q + "[2*(").replace("]", ")]"), g.replace("a_[", q + "[2*(").replace("]", ")+1]"))
    herm = sym == "H"
    head = "typedef %s T; const int n=%d; KryM<T,n> A,P; (void)P; T bb[n]; for(int i=0;i<n;++i){ bb[i]=%s; } " % (T, n, "b[i]" if c == 1 else "T(b[2*i],b[2*i+1])")
    fill = "for(int i=0;i<n;++i){for(int j=0;j<n;++j){ A.a[i][j]=%s; }} " % ld(get.replace("a_", "a_"), "v").replace("a_[", "v[")
    if herm:
        fill += "for(int i=0;i<n;++i){ A.a[i][i]=T(A.a[i][i].real(),0); for(int j=0;j<i;++j){ A.a[i][j]=std::conj(A.a[i][j]); } } "
    ps = "v:n%d, b:n%d" % (m * c, n * c)
    if pc:
        ps += ", p:n%d" % (m * c)
        fill += fill.replace("A.a", "P.a").replace("v[", "p[")
    zn = n * c
    body = head + fill + vec + call
    if exact:
        body += "for(int i=0;i<n;++i){ T s=-bb[i]; for(int j=0;j<n;++j){ s+=A.a[i][j]*x[j]; } rput(z+%d*i,s); }" % c
    else:
        body += "double rr=0,b2=0; for(int i=0;i<n;++i){ T s=r[i]-bb[i]; for(int j=0;j<n;++j){ s+=A.a[i][j]*x[j]; } rput(z+%d*i,s); rr+=rnrm(r[i]); b2+=rnrm(bb[i]); } " % c
        if hist:
            body += "z[%d]=%s[%d]*%s[%d]*b2-rr;" % (zn, "h_" if "h_[" in call else "h", its - 1, "h_" if "h_[" in call else "h", its - 1)
            zn += 1
    return Z("%s(n=%d, %d steps%s)" % (name, n, its, ", exact" if exact else ""), ps, zn, body, note, again=again)


VV = "std::vector<T> R(bb,bb+n),X(n),W(n),Q(n); T *r=R.data(),*x=X.data(); "
CGC = "auto h=Solve_CG(ViewAsVectorXd(R),ViewAsVectorXd(X),ViewAsVectorXd(W),ViewAsVectorXd(Q),-1.0,%d,A); "
PCG = "auto h=Solve_PCG(ViewAsVectorXd(R),ViewAsVectorXd(X),ViewAsVectorXd(W),ViewAsVectorXd(Q),-1.0,%d,A,P); const double sc=1/std::sqrt(rdot(b,b,n)), h_[]={h[1]*sc,h[n==0?0:%d]*sc}; "
CD = "std::complex<double>"
RX = "T r[n],x[n]; for(int i=0;i<n;++i){r[i]=bb[i];} "
for n in (2, 3):
    for k in range(1, n + 1):
        kry.append((["lsitrsol.h", "view_vectorx.h"], KRY("Solve_CG", CGC % k, n, "double", True, False, k, "the residual is b - A x", vec=VV)))
    kry.append((["lsitrsol.h", "view_vectorx.h"], KRY("Solve_CG", CGC % n, n, "double", True, False, n, "n steps solve a symmetric system", vec=VV, exact=True)))
for k in (1, 2):
    kry.append((["lsitrsol.h", "view_vectorx.h"], KRY("Solve_PCG", PCG % (k,k), 2, "double", True, True, k, "the residual is b - A x", vec=VV)))
    for nm, pc, T, sym, kk in (("Solve_CG_Complex", 0, CD, "H", k),):
        kry.append((["vecxitrsol.h"], KRY(nm, "auto h=%s(r,x,-1.0,%d,A); " % (nm, kk), 2, T, sym, pc, k, "the residual is b - A x")))
    for nm, T, sym, kk in (("Solve_PCOCG", CD, 1, k),):
        kry.append((["vecxitrsol.h"], KRY(nm, "auto h=%s(r,x,-1.0,%d,A,P); " % (nm, kk), 2, T, sym, True, k, "the residual is b - A x", vec=RX)))
    kry.append((["vecxitrsol.h"], KRY("Solve_PCG_Complex", "auto h=Solve_PCG_Complex(r,x,-1.0,%d,A,P); const double h_[]={h[1],h[%d]}; " % (k,k), 2, CD, "H", True, k, "the residual is b - A x", vec=RX)))
kry.append((["lsitrsol.h", "view_vectorx.h"], KRY("Solve_PCG", PCG % (2,2), 2, "double", True, True, 2, "n steps solve a symmetric system", vec=VV, exact=True)))
kry.append((["vecxitrsol.h"], KRY("Solve_CG_Complex", "auto h=Solve_CG_Complex(r,x,-1.0,2,A); ", 2, CD, "H", 0, 2, "n steps solve the system", exact=True)))
for nm, T, sym in (("Solve_PCOCG", CD, 1), ("Solve_PCG_Complex", CD, "H")):
    kry.append((["vecxitrsol.h"], KRY(nm, "auto h=%s(r,x,-1.0,2,A,P); " % nm, 2, T, sym, True, 2, "n steps solve the system", vec=RX, exact=True)))
# with n unknowns the n-th step of the stabilised method divides zero by zero in exact arithmetic: three unknowns, two steps, against the published recurrence
REF = "T Y[n],U[n][n]; for(int i=0;i<n;++i){for(int j=0;j<n;++j){ U[i][j]=%s; }} rstab<T,n>(U,bb,Y,%d); %s for(int i=0;i<n;++i){ rput(z+%d*i,x[i]-Y[i]); } "
for k in (1, 2):
    for nm, T, kk in (("Solve_BiCGStab", "double", k), ("Solve_BiCGSTAB_Complex", CD, k)):
        for ex in (False, True):
            kk_ = KRY(nm, "auto h=%s(r,x,-1.0,%d,A); " % (nm, kk) + (REF % ("A.a[i][j]", k, "", 1 if T == "double" else 2) + "return; " if ex else ""), 3, T, 0, 0, k, "the published recurrence" if ex else "the residual is b - A x", hist=not ex)
            kk_.name += " against the recurrence" if ex else ""
            kry.append((["vecxitrsol.h"], kk_))
    for nm, T, kk in (("Solve_PBiCGStab", "double", k + 1), ("Solve_PBiCGStab_Complex", CD, k)):
        for ex in (False, True):
            kk_ = KRY(nm, "auto h=%s(r,x,-1.0,%d,A,P); " % (nm, kk) + (REF % ("T(0); for(int l=0;l<n;++l){ U[i][j]+=A.a[i][l]*P.a[l][j]; }", k, "P.SolvePrecond(Y);", 1 if T == "double" else 2) + "return; " if ex else ""), 3, T, 0, True, k, "the published recurrence" if ex else "the residual is b - A x", vec=RX, hist=not ex)
            kk_.name += " against the recurrence" if ex else ""
            kry.append((["vecxitrsol.h"], kk_))
for h, k in kry:
    L.append((["!quiet"] + h, [k]))
L = [(h, [k]) for h, ks in L for k in ks]

# ---------------------------------------------------------------- M: measures of meshes, maps of point sets, grids (C25)
M = []
TRI = "const std::vector<unsigned> T{2,0,1,1,3,2,4,1,0}; "           # three triangles on five nodes
TRIU = "static const unsigned T[9]={2,0,1,1,3,2,4,1,0}; "
QUAD = "const std::vector<unsigned> T{0,1,2,3,3,2,4,5}; "
TET = "const std::vector<unsigned> T{3,0,2,1,1,4,2,3}; "
TETU = "static const unsigned T[8]={3,0,2,1,1,4,2,3}; "
VV_ = lambda v, p, n: "std::vector<double> %s(%s,%s+%d); " % (v, p, p, n)
LEN3 = "auto len=[](const double *u){ return std::sqrt(rdot(u,u)); }; (void)len; "
DIST = "auto dst=[](const double *u,const double *w,int n){ double s=0; for(int i=0;i<n;++i){ s+=(u[i]-w[i])*(u[i]-w[i]); } return std::sqrt(s); }; (void)dst; "
AREA3 = "auto ar=[](const double *u,const double *v,const double *w){ double n[3]; rnormal(n,u,v,w); return std::sqrt(rdot(n,n))/2; }; (void)ar; "
UNRM = "auto un=[](double *o,const double *u,const double *v,const double *w){ rnormal(o,u,v,w); double l=std::sqrt(rdot(o,o)); for(int i=0;i<3;++i){ o[i]/=l; } return l/2; }; (void)un; "
BRY = "auto bry=[](double *o,double a,double b,double c){ double X[9]={1,0,0,0,std::cos(a),-std::sin(a),0,std::sin(a),std::cos(a)},Y[9]={std::cos(b),0,std::sin(b),0,1,0,-std::sin(b),0,std::cos(b)},Z_[9]={std::cos(c),-std::sin(c),0,std::sin(c),std::cos(c),0,0,0,1},t[9]; rmm(t,Z_,Y,3); rmm(o,t,X,3); }; "
MAF = ["!quiet", "msh_affine_transformation.h"]
M.append((MAF, [
 Z("Scale_Points", "a:n3p3, f:s", 18, VV_("P", "a", 9) + "Scale_PointsX(P,f); for(int i=0;i<9;++i){z[i]=P[i]-f*a[i];} double p[9]; for(int i=0;i<9;++i){p[i]=a[i];} Scale_Points(p,3,3,f); for(int i=0;i<9;++i){z[9+i]=p[i]-f*a[i];}", "every coordinate is multiplied by the factor"),
 Z("Translate_Points", "a:n3p3, b:n4p2, t:v3", 33, "double p[9],q[8]; for(int i=0;i<9;++i){p[i]=a[i];} for(int i=0;i<8;++i){q[i]=b[i];} Translate_Points(p,3,3,t); for(int i=0;i<9;++i){z[i]=p[i]-a[i]-t[i%3];} " + VV_("P", "a", 9) + VV_("Q", "b", 8) + "Translate_Points3(P,t[0],t[1],t[2]); Translate_Points2(Q,t[0],t[1]); for(int i=0;i<9;++i){z[9+i]=P[i]-a[i]-t[i%3];} for(int i=0;i<8;++i){z[18+i]=Q[i]-b[i]-t[i%2];} for(int i=26;i<33;++i){z[i]=0;}", "every point is moved by the translation"),
 Z("Rotate_Points3", "a:n3p3, r:v3", 9, BRY + VV_("P", "a", 9) + "Rotate_Points3(P,r[0],r[1],r[2]); double m[9]; bry(m,r[0],r[1],r[2]); for(int i=0;i<3;++i){double o[3]; rmv(o,m,a+3*i,3); for(int d=0;d<3;++d){z[3*i+d]=P[3*i+d]-o[d];}}", "every point is rotated about x, then y, then z"),
 Z("NormalizeVector_Points", "a:n3p3, b:n3p2", 15, "double p[9],q[6]; for(int i=0;i<9;++i){p[i]=a[i];} for(int i=0;i<6;++i){q[i]=b[i];} NormalizeVector_Points(p,3u,3u); NormalizeVector_Points(q,3u,2u); for(int i=0;i<9;++i){z[i]=p[i]*std::sqrt(rdot(a+i/3*3,a+i/3*3))-a[i];} for(int i=0;i<6;++i){z[9+i]=q[i]*std::sqrt(rdot(b+i/2*2,b+i/2*2,2))-b[i];}", "every vector is divided by its length"),
 Z("TangentVector_Points3", "a:n2p3, m:n2p3", 6, VV_("P", "a", 6) + VV_("Q", "m", 6) + "TangentVector_Points3(P,Q); for(int k=0;k<2;++k){ double o[3]; const double *n=m+3*k; for(int d=0;d<3;++d){o[d]=a[3*k+d]-rdot(a+3*k,n)*n[d];} double l=std::sqrt(rdot(o,o)); for(int d=0;d<3;++d){z[3*k+d]=P[3*k+d]*l-o[d];} }", "the tangential part, with unit length"),
 Z("Normalize_Points3", "a:n3p3, f:s", 18, VV_("P", "a", 9) + "Normalize_Points3(P,f); double c[3],w[3],m=0; for(int d=0;d<3;++d){ double lo=a[d],hi=a[d]; for(int i=1;i<3;++i){ double v=a[3*i+d]; lo=v<lo?v:lo; hi=v>hi?v:hi; } c[d]=(lo+hi)/2; w[d]=hi-lo; m=(d==0||w[d]>m)?w[d]:m; } for(int i=0;i<9;++i){z[i]=P[i]*m-(a[i]-c[i%3])*f; z[9+i]=0;}", "centred, and scaled so that the longest edge of the box has the given length"),
]))
CGH = ["!quiet", "msh_center_of_gravity.h"]
M.append((CGH, [
 Z("CG_Point3", "a:n3p3", 3, VV_("P", "a", 9) + "double c[3]; CG_Point3(c,P); for(int d=0;d<3;++d){z[d]=3*c[d]-a[d]-a[3+d]-a[6+d];}", "the mean of the points"),
 Z("CG_MeshTri3_Solid", "a:n5p3", 3, TRI + VV_("P", "a", 15) + "double c[3],w=0,r[3]={0,0,0},o[3]={0,0,0}; CG_MeshTri3_Solid(c,P,T); for(int k=0;k<3;++k){ const double *p0=a+3*T[3*k],*p1=a+3*T[3*k+1],*p2=a+3*T[3*k+2]; double v=rvol(o,p0,p1,p2); w+=v; for(int d=0;d<3;++d){ r[d]+=v*(p0[d]+p1[d]+p2[d])/4; } } for(int d=0;d<3;++d){z[d]=c[d]*w-r[d];}", "volume weighted mean of the tetrahedra with the origin"),
 Z("CG_MeshTri3_Shell", "a:n5p3", 3, AREA3 + TRI + VV_("P", "a", 15) + "double c[3],w=0,r[3]={0,0,0}; CG_MeshTri3_Shell(c,P,T); for(int k=0;k<3;++k){ const double *p0=a+3*T[3*k],*p1=a+3*T[3*k+1],*p2=a+3*T[3*k+2]; double v=ar(p0,p1,p2); w+=v; for(int d=0;d<3;++d){ r[d]+=v*(p0[d]+p1[d]+p2[d])/3; } } for(int d=0;d<3;++d){z[d]=c[d]*w-r[d];}", "area weighted mean of the triangles"),
 Z("CG_TriMsh3Flg_Shell", "a:n5p3", 12, AREA3 + TRI + VV_("P", "a", 15) + "for(int m=1;m<4;++m){ std::vector<int> F{m!=2?7:0,m!=1?7:0,m==1?7:0}; double c[3],w=0,r[3]={0,0,0}; double W=CG_TriMsh3Flg_Shell(c,P,T,7,F); for(int k=0;k<3;++k){ if(F[k]!=7) continue; const double *p0=a+3*T[3*k],*p1=a+3*T[3*k+1],*p2=a+3*T[3*k+2]; double v=ar(p0,p1,p2); w+=v; for(int d=0;d<3;++d){ r[d]+=v*(p0[d]+p1[d]+p2[d])/3; } } for(int d=0;d<3;++d){*z++=c[d]*w-r[d];} *z++=W-w; }", "area weighted mean of the flagged triangles"),
 Z("CG_Tri", "a:n5p3", 3, "const std::vector<int> T{2,0,1,1,3,2,4,1,0}; " + VV_("P", "a", 15) + "CG_Tri(z[0],z[1],z[2],1,P,T); for(int d=0;d<3;++d){z[d]=3*z[d]-a[3+d]-a[9+d]-a[6+d];}", "the mean of the corners"),
 Z("CentsMaxRad_MeshTri3", "a:n5p3", 9, TRI + VV_("P", "a", 15) + "std::vector<double> C; CentsMaxRad_MeshTri3(C,P,T); for(int i=0;i<9;++i){ z[i]=3*C[i]; for(int j=0;j<3;++j){ z[i]-=a[3*T[3*(i/3)+j]+i%3]; } }", "centres of the triangles"),
 Z("CentsMaxRad_MeshTri3 (radius)", "a:n3p3", 1, DIST + "const std::vector<unsigned> T{1,2,0}; " + VV_("P", "a", 9) + "std::vector<double> C; double r=CentsMaxRad_MeshTri3(C,P,T),m=-1,c[3]; for(int d=0;d<3;++d){c[d]=(a[d]+a[3+d]+a[6+d])/3;} for(int i=0;i<3;++i){ double l=dst(c,a+3*((i+1)%3),3); m=(m<0||l>m)?l:m; } z[0]=r-m;", "largest distance of a corner from the centre of its triangle"),
 Z("CG_MeshTet3", "a:n5p3", 4, TET + VV_("P", "a", 15) + "double c[3],w=0,r[3]={0,0,0},W; CG_MeshTet3(W,c,P,T); for(int k=0;k<2;++k){ const double *p[4]; for(int i=0;i<4;++i){p[i]=a+3*T[4*k+i];} double v=rvol(p[0],p[1],p[2],p[3]); w+=v; for(int d=0;d<3;++d){ r[d]+=v*(p[0][d]+p[1][d]+p[2][d]+p[3][d])/4; } } for(int d=0;d<3;++d){z[d]=c[d]*w-r[d];} z[3]=W-w;", "volume weighted mean of the tetrahedra"),
 Z("CG_MeshLine3", "a:n4p3", 4, DIST + "const std::vector<unsigned> T{2,0,0,3,3,1}; " + VV_("P", "a", 12) + "double c[3],w=0,r[3]={0,0,0},W; CG_MeshLine3(W,c,P,T); for(int k=0;k<3;++k){ const double *p0=a+3*T[2*k],*p1=a+3*T[2*k+1]; double v=dst(p0,p1,3); w+=v; for(int d=0;d<3;++d){ r[d]+=v*(p0[d]+p1[d])/2; } } for(int d=0;d<3;++d){z[d]=c[d]*w-r[d];} z[3]=W-w;", "length weighted mean of the segments"),
]))
BBR = "auto box=[&](double *c,double *w,std::initializer_list<int> S){ for(int d=0;d<3;++d){ double lo=0,hi=0; bool f=true; for(int i:S){ double v=a[3*i+d]; lo=(f||v<lo)?v:lo; hi=(f||v>hi)?v:hi; f=false; } c[d]=(lo+hi)/2; w[d]=hi-lo; } }; double c[3],w[3]; "
BBH = ["!quiet", "msh_boundingbox.h"]
CWD = "for(int d=0;d<3;++d){z[d]=C[d]-c[d]; z[3+d]=C[3+d]-w[d];}"
M.append((BBH, [
 Z("BoundingBox3_Points3", "a:n3p3", 6, BBR + "double lo[3],hi[3]; BoundingBox3_Points3(lo,hi,a,3); box(c,w,{0,1,2}); for(int d=0;d<3;++d){z[d]=lo[d]+hi[d]-2*c[d]; z[3+d]=hi[d]-lo[d]-w[d];}", "smallest and largest coordinates"),
 Z("CenterWidth_Point3", "a:n3p3", 6, BBR + "double C[6],q[9]; for(int i=0;i<9;++i){q[i]=a[i];} CenterWidth_Point3(C[0],C[1],C[2],C[3],C[4],C[5],q,3); box(c,w,{0,1,2}); " + CWD, "centre and widths of the box"),
 Z("CenterWidth_Points3", "a:n3p3", 6, BBR + VV_("P", "a", 9) + "double C[6]; CenterWidth_Points3(C,C+3,P); box(c,w,{0,1,2}); " + CWD, "centre and widths of the box"),
 Z("GetCenterWidthLocal", "a:n3p3, e:n9", 6, VV_("P", "a", 9) + "double C[6]; GetCenterWidthLocal(C[0],C[1],C[2],C[3],C[4],C[5],P,e,e+3,e+6); for(int d=0;d<3;++d){ double lo=0,hi=0; for(int i=0;i<3;++i){ double v=rdot(a+3*i,e+3*d); lo=(i==0||v<lo)?v:lo; hi=(i==0||v>hi)?v:hi; } z[d]=C[d]-(lo+hi)/2; z[3+d]=C[3+d]-hi+lo; }", "box along three given directions"),
 Z("GetCenterWidthGroup(tri)", "a:n5p3", 6, BBR + VV_("P", "a", 15) + "std::vector<unsigned> T{2,0,1,1,3,2,4,1,0}; std::vector<int> G{1,0,1}; double C[6]; GetCenterWidthGroup(C[0],C[1],C[2],C[3],C[4],C[5],P,T,3u,0,G); box(c,w,{1,3,2}); " + CWD, "box of the elements of one group"),
 Z("GetCenterWidthGroup(quad)", "a:n6p3", 6, BBR + VV_("P", "a", 18) + "std::vector<unsigned> T{0,1,2,3,3,2,4,5,5,4,1,0}; std::vector<int> G{1,0,1}; double C[6]; GetCenterWidthGroup(C[0],C[1],C[2],C[3],C[4],C[5],P,T,4u,0,G); box(c,w,{3,2,4,5}); " + CWD, "box of the elements of one group"),
 Z("GetCenterWidthGroup(line)", "a:n5p3", 6, BBR + VV_("P", "a", 15) + "std::vector<unsigned> T{4,3,3,2,1,0}; std::vector<int> G{0,1,0}; double C[6]; GetCenterWidthGroup(C[0],C[1],C[2],C[3],C[4],C[5],P,T,2u,0,G); box(c,w,{4,3,1,0}); " + CWD, "box of the elements of one group"),
]))
NRH = ["!quiet", "msh_normal.h"]
M.append((NRH, [
 Z("Normal_MeshTri3D", "a:n5p3", 15, UNRM + TRI + "double N[15],r[15]; Normal_MeshTri3D(N,a,5,T.data(),3); for(double &v:r){v=0;} for(int k=0;k<3;++k){ double n[3]; un(n,a+3*T[3*k],a+3*T[3*k+1],a+3*T[3*k+2]); for(int i=0;i<3;++i){for(int d=0;d<3;++d){r[3*T[3*k+i]+d]+=n[d];}} } for(int i=0;i<5;++i){ double l=std::sqrt(rdot(r+3*i,r+3*i)); for(int d=0;d<3;++d){z[3*i+d]=N[3*i+d]*l-r[3*i+d];} }", "normalised sum of the unit normals of the triangles around the node"),
 Z("Normal_TriInMeshTri3", "a:n5p3", 3, TRI + "auto n=Normal_TriInMeshTri3(1u,a,T.data()); rnormal(z,a+3,a+9,a+6); for(int d=0;d<3;++d){z[d]-=n[d];}", "cross product of two edges"),
 Z("Normal_MeshQuad3", "a:n6p3", 18, UNRM + QUAD + VV_("P", "a", 18) + "std::vector<double> N; Normal_MeshQuad3(N,P,T); double r[18]; for(double &v:r){v=0;} for(int k=0;k<2;++k){ for(int i=0;i<4;++i){ double n[3]; un(n,a+3*T[4*k+(i+3)%4],a+3*T[4*k+i],a+3*T[4*k+(i+1)%4]); for(int d=0;d<3;++d){r[3*T[4*k+i]+d]+=n[d];} } } for(int i=0;i<6;++i){ double l=std::sqrt(rdot(r+3*i,r+3*i)); for(int d=0;d<3;++d){z[3*i+d]=N[3*i+d]*l-r[3*i+d];} }", "normalised sum of the unit normals of the corners at the node"),
]))
MMH = ["!quiet", "mshmisc.h"]
M.append((MMH, [
 Z("SolidAngleTri3D", "a:v3, b:v3, c:v3", 1, "double w=SolidAngleTri3D(a,b,c),n[3]; double A=std::sqrt(rdot(a,a)),B=std::sqrt(rdot(b,b)),C=std::sqrt(rdot(c,c)); rcross(n,a,b); double den=rdot(n,c),num=A*B*C+rdot(a,b)*C+rdot(b,c)*A+rdot(c,a)*B, h=2*std::atan2(den,num); z[0]=std::sin(w)*(1+std::cos(h))-std::sin(h)*(1+std::cos(w));", "van Oosterom and Strackee"),
 Z("MassPoint_Tet3D", "a:n5p3, rho:s", 5, TETU + "double m[5]; MassPoint_Tet3D(m,rho,a,5,T,2); for(int i=0;i<5;++i){z[i]=m[i];} for(int k=0;k<2;++k){ double v=rvol(a+3*T[4*k],a+3*T[4*k+1],a+3*T[4*k+2],a+3*T[4*k+3]); for(int i=0;i<4;++i){z[T[4*k+i]]-=rho*v/4;} }", "a quarter of the mass of every tetrahedron"),
 Z("MassPoint_Tri2D", "a:n5p2, rho:s", 5, TRIU + "double m[5]; MassPoint_Tri2D(m,rho,a,5,T,3); for(int i=0;i<5;++i){z[i]=m[i];} for(int k=0;k<3;++k){ double v=rarea2(a+2*T[3*k],a+2*T[3*k+1],a+2*T[3*k+2]); for(int i=0;i<3;++i){z[T[3*k+i]]-=rho*v/3;} }", "a third of the mass of every triangle"),
 Z("MassPoint_Tri3D", "a:n5p3, rho:s", 5, AREA3 + TRIU + "double m[5]; MassPoint_Tri3D(m,rho,a,5,T,3); for(int i=0;i<5;++i){z[i]=m[i];} for(int k=0;k<3;++k){ double v=ar(a+3*T[3*k],a+3*T[3*k+1],a+3*T[3*k+2]); for(int i=0;i<3;++i){z[T[3*k+i]]-=rho*v/3;} }", "a third of the mass of every triangle"),
 Z("Quality_MeshTri2D", "a:n4p2", 2, DIST + "static const unsigned T[6]={2,0,1,1,3,2}; double A,B; Quality_MeshTri2D(A,B,a,T,2); double ma=0,mb=0; for(int k=0;k<2;++k){ const double *p=a+2*T[3*k],*q=a+2*T[3*k+1],*r=a+2*T[3*k+2]; double v=rarea2(p,q,r),l=(dst(p,q,2)+dst(q,r,2)+dst(r,p,2))/3,s=l*l/v; ma=(k==0||s>ma)?s:ma; mb=(k==0||v<mb)?v:mb; } z[0]=A-ma; z[1]=B-mb;", "worst ratio of squared mean edge length to area, and smallest area"),
 Z("ExtrudeTri2Tet(points)", "a:n4p2, h:s", 36, VV_("P", "a", 8) + "const std::vector<unsigned> T{2,0,1,1,3,2}; std::vector<double> Q; std::vector<unsigned> E; ExtrudeTri2Tet(2,h,Q,E,P,T); for(int l=0;l<3;++l){for(int i=0;i<4;++i){ z[l*12+3*i]=Q[l*12+3*i]-a[2*i]; z[l*12+3*i+1]=Q[l*12+3*i+1]-a[2*i+1]; z[l*12+3*i+2]=Q[l*12+3*i+2]-l*h; }}", "layers of equal height"),
 Z("ExtrudeTri2Tet(volume)", "a:n4p2, h:s", 5, VV_("P", "a", 8) + "const std::vector<unsigned> T{2,0,1,1,3,2}; std::vector<double> Q; std::vector<unsigned> E; ExtrudeTri2Tet(2,h,Q,E,P,T); double s=0; for(int k=0;k<12;++k){ double v=rvol(&Q[3*E[4*k]],&Q[3*E[4*k+1]],&Q[3*E[4*k+2]],&Q[3*E[4*k+3]]); s+=v; if(k%3==2){ const unsigned *t=&T[3*((k/3)%2)]; z[k/3]=s-h*rarea2(a+2*t[0],a+2*t[1],a+2*t[2]); s=0; } } z[4]=0;", "the tetrahedra fill the prism of their triangle"),
 Z("LaplacianSmoothing", "a:n4p3", 12, AREA3 + VV_("P", "a", 12) + "const std::vector<int> T{2,0,1,1,3,2},I{0,1,3,5,6},E{0,0,1,0,1,1}; LaplacianSmoothing(P,T,I,E); double q[12]; for(int i=0;i<12;++i){q[i]=a[i];} for(int i=0;i<4;++i){ double s=0,c[3]={0,0,0}; for(int e=I[i];e<I[i+1];++e){ const double *u=q+3*T[3*E[e]],*v=q+3*T[3*E[e]+1],*w=q+3*T[3*E[e]+2]; double r=ar(u,v,w); s+=r; for(int d=0;d<3;++d){c[d]+=r*(u[d]+v[d]+w[d])/3;} } for(int d=0;d<3;++d){q[3*i+d]=c[d]/s;} } for(int i=0;i<12;++i){z[i]=P[i]-q[i];}", "every node moves to the area weighted mean of the triangles around it"),
 Z("Area_MeshTri3", "a:n5p3", 1, AREA3 + TRI + VV_("P", "a", 15) + "z[0]=Area_MeshTri3(P,T,[](unsigned i){return i!=1;})-ar(a+6,a,a+3)-ar(a+12,a+3,a);", "sum of the areas of the selected triangles"),
 Z("AddMesh", "a:n4p3, b:n3p3", 27, VV_("P", "a", 12) + VV_("Q", "b", 9) + "std::vector<unsigned> T{2,0,1,1,3,2},U{1,0,2}; AddMesh(P,T,Q,U); for(int i=0;i<21;++i){z[i]=P[i]-(i<12?a[i]:b[i-12]);} for(int i=21;i<27;++i){z[i]=0;} z[21]=double(T[6])-5; z[22]=double(T[7])-4; z[23]=double(T[8])-6; z[24]=double(T[4])-3;", "points and triangles of both meshes"),
 Z("RemoveUnreferencedPoints_MeshElem", "a:n5p3", 16, VV_("P", "a", 15) + "std::vector<unsigned> T{4,1,3,1,3,0},U; std::vector<double> Q; std::vector<int> F; RemoveUnreferencedPoints_MeshElem(Q,U,F,3,P,T); for(int i=0;i<6;++i){ for(int d=0;d<2;++d){ z[2*i+d]=Q[3*U[i]+d]-a[3*T[i]+d]; } } z[12]=double(Q.size())-12; z[13]=double(F[2])+2; z[14]=double(F[4])-3; z[15]=0;", "the elements keep their corners"),
]))
M.append((["!quiet", "msh_unindexed.h"], [
 Z("UnidexedVertexDataTriMesh", "a:n5p3", 27, TRI + VV_("P", "a", 15) + "std::vector<double> Q; UnidexedVertexDataTriMesh(Q,P,T); for(int i=0;i<27;++i){z[i]=Q[i]-a[3*T[i/3]+i%3];}", "corners of every triangle"),
 Z("UnindexedNormalTriMesh3", "a:n5p3", 27, UNRM + TRI + VV_("P", "a", 15) + "std::vector<double> Q; UnindexedNormalTriMesh3(Q,P,T); for(int k=0;k<3;++k){ double n[3]; un(n,a+3*T[3*k],a+3*T[3*k+1],a+3*T[3*k+2]); for(int i=0;i<9;++i){z[9*k+i]=Q[9*k+i]-n[i%3];} }", "unit normal at every corner"),
 Z("UnindexedColorTriMesh3", "a:n2p3", 27, TRI + "std::vector<double> Q; std::vector<int> F{1,0,1}; UnindexedColorTriMesh3(Q,CA(a,3),F,T); for(int i=0;i<27;++i){z[i]=Q[i]-a[3*F[i/9]+i%3];}", "colour of the flag at every corner"),
 Z("UnindexedEdgeMesh3_UnindexedTrimesh3", "a:n18", 36, VV_("P", "a", 18) + "std::vector<double> Q; UnindexedEdgeMesh3_UnindexedTrimesh3(Q,P); for(int k=0;k<2;++k){for(int e=0;e<3;++e){for(int d=0;d<3;++d){ z[18*k+6*e+d]=Q[18*k+6*e+d]-a[9*k+3*e+d]; z[18*k+6*e+3+d]=Q[18*k+6*e+3+d]-a[9*k+3*((e+1)%3)+d]; }}}", "the three edges of every triangle"),
]))
CCQ = "const std::vector<unsigned> Q0{0,1,4,3,1,2,5,4,3,4,7,6,4,5,8,7}, E{0,1,0,4294967295u,0,3,0,4294967295u,1,2,1,4294967295u,1,4,0,1,2,5,1,4294967295u,3,4,0,2,3,6,2,4294967295u,4,5,1,3,4,7,2,3,5,8,3,4294967295u,6,7,2,4294967295u,7,8,3,4294967295u}; "
M.append((["!quiet", "mshsubdiv.h"], [
 Z("SubdivisionPoints_QuadCatmullClark", "a:n9p3", 75, CCQ + "std::vector<double> P; std::vector<unsigned> X,Y(12); SubdivisionPoints_QuadCatmullClark(P,X,E,X,Y,Q0.data(),4,a,9); double F[12]; for(int i=0;i<75;++i){z[i]=0;} for(int q=0;q<4;++q){for(int d=0;d<3;++d){ double s=0; for(int i=0;i<4;++i){s+=a[3*Q0[4*q+i]+d];} F[3*q+d]=s/4; z[3*(21+q)+d]=P[3*(21+q)+d]-s/4; }} for(int e=0;e<12;++e){for(int d=0;d<3;++d){ double s=(a[3*E[4*e]+d]+a[3*E[4*e+1]+d])/2; if(E[4*e+3]!=4294967295u){ s=(2*s+F[3*E[4*e+2]+d]+F[3*E[4*e+3]+d])/4; } z[3*(9+e)+d]=P[3*(9+e)+d]-s; }} for(int v=0;v<9;++v){for(int d=0;d<3;++d){ if(v!=4){ z[3*v+d]=P[3*v+d]-a[3*v+d]; } else { double f=(F[d]+F[3+d]+F[6+d]+F[9+d])/4, r=0; for(int j:{1,3,5,7}){ r+=(a[12+d]+a[3*j+d])/2; } z[12+d]=P[12+d]-(f+2*r/4+(4-3)*a[12+d])/4; } }}", "Catmull and Clark's rules, boundary kept"),
 Z("SubdivisionPoints_QuadCatmullClark(closed)", "a:n8p3", 24, "const std::vector<unsigned> Q0{0,3,2,1,4,5,6,7,0,1,5,4,1,2,6,5,2,3,7,6,3,0,4,7}, E{0,1,0,2,1,2,0,3,2,3,0,4,3,0,0,5,4,5,1,2,5,6,1,3,6,7,1,4,7,4,1,5,0,4,2,5,1,5,2,3,2,6,3,4,3,7,4,5}; std::vector<double> P; std::vector<unsigned> X,Y(12); SubdivisionPoints_QuadCatmullClark(P,X,E,X,Y,Q0.data(),6,a,8); for(int v=0;v<8;++v){for(int d=0;d<3;++d){ double f=0,r=0; for(int q=0;q<6;++q){ for(int i=0;i<4;++i){ if(int(Q0[4*q+i])==v){ for(int j=0;j<4;++j){ f+=a[3*Q0[4*q+j]+d]/4; } } } } for(int e=0;e<12;++e){ if(int(E[4*e])==v||int(E[4*e+1])==v){ r+=(a[3*E[4*e]+d]+a[3*E[4*e+1]+d])/2; } } z[3*v+d]=P[3*v+d]-(f/3+2*r/3)/3; }}", "Catmull and Clark's vertex rule at valence three"),
 Z("SubdivPoints3_MeshQuad", "a:n6p3", 45, VV_("P", "a", 18) + "const std::vector<unsigned> Q0{0,1,4,3,1,2,5,4}; const std::vector<int> E{0,1,0,-1,0,3,0,-1,1,2,1,-1,1,4,0,1,2,5,1,-1,3,4,0,-1,4,5,1,-1}; std::vector<double> Q; SubdivPoints3_MeshQuad(Q,E,Q0,P); for(int i=0;i<18;++i){z[i]=Q[i]-a[i];} for(int e=0;e<7;++e){for(int d=0;d<3;++d){ z[18+3*e+d]=Q[18+3*e+d]-(a[3*E[4*e]+d]+a[3*E[4*e+1]+d])/2; }} for(int q=0;q<2;++q){for(int d=0;d<3;++d){ double s=0; for(int i=0;i<4;++i){s+=a[3*Q0[4*q+i]+d];} z[39+3*q+d]=Q[39+3*q+d]-s/4; }}", "midpoints of edges and faces"),
 Z("SubdivisionPoints_Hex", "a:n8p3", 81, "const std::vector<unsigned> H{0,1,2,3,4,5,6,7}, I{0,3,5,7,8,10,11,12,12}, J{1,3,4,2,5,3,6,7,5,7,6,7}, Q0{0,3,2,1,4,5,6,7,0,1,5,4,1,2,6,5,2,3,7,6,3,0,4,7}; std::vector<double> Q; SubdivisionPoints_Hex(Q,I,J,Q0,H.data(),1,a,8); for(int i=0;i<24;++i){z[i]=Q[i]-a[i];} for(int v=0;v<8;++v){for(unsigned e=I[v];e<I[v+1];++e){for(int d=0;d<3;++d){ z[24+3*e+d]=Q[24+3*e+d]-(a[3*v+d]+a[3*J[e]+d])/2; }}} for(int q=0;q<6;++q){for(int d=0;d<3;++d){ double s=0; for(int i=0;i<4;++i){s+=a[3*Q0[4*q+i]+d];} z[60+3*q+d]=Q[60+3*q+d]-s/4; }} for(int d=0;d<3;++d){ double s=0; for(int i=0;i<8;++i){s+=a[3*i+d];} z[78+d]=Q[78+d]-s/8; }", "midpoints of edges, faces and cells"),
]))
FDH = ["!quiet", "fdm_array2.h", "fdm_stablefluids.h"]
GF = lambda v, p, ni, nj: "FdmArray2<double> %s(%d,%d); for(int i=0;i<%d;++i){%s.v[i]=%s[i];} " % (v, ni, nj, ni * nj, v, p)
GV = lambda v, p, ni, nj: "FdmArray2<std::array<double,2>> %s(%d,%d); for(int i=0;i<%d;++i){%s.v[i]={%s[2*i],%s[2*i+1]};} " % (v, ni, nj, ni * nj, v, p, p)
M.append((FDH, [
 Z("FdmArray2", "a:n12", 12, GF("A", "a", 4, 3) + "const auto &B=A; for(int j=0;j<3;++j){for(int i=0;i<4;++i){z[4*j+i]=A(i,j)-a[4*j+i];}} z[0]=B.ClampedFetch(-1,1)-a[4]; z[1]=A.ClampedFetch(4,2)-a[11]; z[2]=B.ClampedFetch(2,-1)-a[2]; z[3]=A.ClampedFetch(1,3)-a[9]; z[4]=B.ClampedFetch(5,7)-a[11]; z[5]=A.ClampedFetch(2,1)-a[6]; z[6]=A.ClampedFetch(3,0)-a[3]; z[7]=B.ClampedFetch(0,2)-a[8];", "row-major access, clamped to the border"),
 Z("LinearInterpolationOnGrid2", "a:n18", 32, GV("A", "a", 3, 3) + "const double X[4]={0.25,1.75,-0.5,2.5}; const int I[4]={0,1,0,1}; const double R[4]={0.25,0.75,0,(3-1.0-1.0e-10)-1}; for(int k=0;k<4;++k){for(int l=0;l<4;++l){for(int d=0;d<2;++d){ const double *p=a+2*(I[k]+3*I[l])+d; double x=R[k],y=R[l]; z[(k*4+l)*2+d]=LinearInterpolationOnGrid2<2>(A,d,X[k],X[l])-((1-x)*(1-y)*p[0]+x*(1-y)*p[2]+(1-x)*y*p[6]+x*y*p[8]); }}}", "bilinear inside, values of the border outside"),
 Z("SolvePoissionEquationOnGrid2ByGaussSeidelMethod", "a:n9, b:n9, f:s", 9, GF("A", "a", 3, 3) + GF("B", "b", 3, 3) + "SolvePoissionEquationOnGrid2ByGaussSeidelMethod(A,B,f,3,3,2); double p[9]; for(int i=0;i<9;++i){p[i]=a[i];} auto at=[&](int i,int j){ i=i<0?0:(i>2?2:i); j=j<0?0:(j>2?2:j); return p[i+3*j]; }; for(int k=0;k<2;++k){for(int j=0;j<3;++j){for(int i=0;i<3;++i){ p[i+3*j]=(at(i+1,j)+at(i-1,j)+at(i,j+1)+at(i,j-1)-b[i+3*j]*f)/4; }}} for(int i=0;i<9;++i){z[i]=A.v[i]-p[i];}", "Gauss-Seidel sweeps of the five point stencil with mirrored border"),
 Z("Divergence_StaggerdGrid2", "u:n8, v:n9, h:s", 6, GF("D", "u", 3, 2) + GF("A", "u", 4, 2) + GF("B", "v", 3, 3) + "Divergence_StaggerdGrid2(D,3,2,A,B,h); for(int j=0;j<2;++j){for(int i=0;i<3;++i){ z[i+3*j]=D(i,j)*h-(u[i+1+4*j]-u[i+4*j]+v[i+3*(j+1)]-v[i+3*j]); }}", "net flux through the faces of every cell"),
 Z("Divergence_CellCenteredGrid2", "u:n32, w:n16, h:s", 16, GF("D", "w", 4, 4) + GV("A", "u", 4, 4) + "Divergence_CellCenteredGrid2(D,4,4,A,h); for(int j=0;j<4;++j){for(int i=0;i<4;++i){ bool in=i>0&&i<3&&j>0&&j<3; int c=i+4*j; z[c]=in?D(i,j)*h-(u[2*(c-1)]-u[2*(c+1)]+u[2*(c-4)+1]-u[2*(c+4)+1]):D(i,j)-w[c]; }}", "central differences inside, border untouched"),
 Z("SubstructPressureGradient_StaggeredGrid2", "u:n8, v:n9, p:n6, f:s", 17, GF("A", "u", 4, 2) + GF("B", "v", 3, 3) + GF("C", "p", 3, 2) + "SubstructPressureGradient_StaggeredGrid2(A,B,3,2,f,C); for(int j=0;j<2;++j){for(int i=0;i<4;++i){ z[i+4*j]=A(i,j)-u[i+4*j]; if(i>0&&i<3){ z[i+4*j]+=f*(p[i+3*j]-p[i-1+3*j]); } }} for(int j=0;j<3;++j){for(int i=0;i<3;++i){ z[8+i+3*j]=B(i,j)-v[i+3*j]; if(j>0&&j<2){ z[8+i+3*j]+=f*(p[i+3*j]-p[i+3*(j-1)]); } }}", "difference of the pressures at both sides of every inner face"),
 Z("SubstructPressureGradient_CellCenteredGrid2", "u:n32, p:n16, f:s", 32, GV("A", "u", 4, 4) + GF("C", "p", 4, 4) + "SubstructPressureGradient_CellCenteredGrid2(A,4,4,f,C); for(int j=0;j<4;++j){for(int i=0;i<4;++i){ int c=i+4*j; bool in=i>0&&i<3&&j>0&&j<3; for(int d=0;d<2;++d){ z[2*c+d]=A(i,j)[d]-u[2*c+d]; if(in){ int s=d==0?1:4; z[2*c+d]+=f*(p[c-s]-p[c+s])/2; } } }}", "central differences inside, border untouched"),
]))
M.append((["!quiet", "img_interpolation.h"], []))
M.append((["!quiet", "grid3hash.h"], [
 Z("WGrid3Cubic", "h:s, a:s, b:s, c:s", 1, "z[0]=WGrid3Cubic(h,a,b,c)-WGrid1Cubic(h*a)*WGrid1Cubic(h*b)*WGrid1Cubic(h*c);", "product of the one-dimensional weights"),
 Z("WGrid1Cubic partition", "s:s", 2, "double t=s; z[0]="+"+".join(POS(q) for q in ("t","1-t","1+t","2-t"))+"+WGrid1Cubic(t)+WGrid1Cubic(t-1)+WGrid1Cubic(t+1)+WGrid1Cubic(t-2)-1; z[1]=dWGrid1Cubic(t)+dWGrid1Cubic(t-1)+dWGrid1Cubic(t+1)+dWGrid1Cubic(t-2);", "the weights of the four nodes around a point add up to one"),
]))
PBH = ["!quiet", "pbd_geo3.h"]
M.append((PBH, [
 Z("PBD_Pre3D", "dt:s, g:v3, a:n3p3, u:n9", 9, VV_("P", "a", 9) + VV_("U", "u", 9) + "std::vector<int> F{0,1,0}; std::vector<double> Q; PBD_Pre3D(Q,dt,g,P,U,F); for(int i=0;i<9;++i){ z[i]=Q[i]-a[i]-(i/3==1?0:dt*u[i]+dt*dt*g[i%3]); }", "prediction of the free points"),
 Z("PBD_Post", "dt:s, b:n3p3, a:n3p3, u:n9", 18, VV_("P", "a", 9) + VV_("U", "u", 9) + VV_("Q", "b", 9) + "std::vector<int> F{0,1,0}; PBD_Post(P,U,dt,Q,F); for(int i=0;i<9;++i){ if(i/3==1){ z[i]=P[i]-a[i]; z[9+i]=U[i]-u[i]; } else { z[i]=P[i]-b[i]; z[9+i]=U[i]*dt-b[i]+a[i]; } }", "velocity is displacement over time"),
 Z("PBD_Seam(far)", "a:n3p3", 9, DIST + "double p[9]; for(int i=0;i<9;++i){p[i]=a[i]*1000;} static const unsigned T[2]={2,0}; double q[9]; for(int i=0;i<9;++i){q[i]=p[i];} PBD_Seam(p,3,T,1); double l=dst(q+6,q,3); for(int d=0;d<3;++d){ double m=l>0.01?0.005*(q[d]-q[6+d])/l:(q[d]-q[6+d])/2; z[d]=p[d]-q[d]+m; z[3+d]=p[3+d]-q[3+d]; z[6+d]=p[6+d]-q[6+d]-m; }", "both ends approach by the seam width, or meet in the middle"),
]))
RH = ["!quiet", "rig_geo3.h"]
ROT = "auto rot=[](double *o,const double *q,const double *p){ double c[3],d[3]; rcross(c,q,p); rcross(d,q,c); for(int k=0;k<3;++k){ o[k]=p[k]+2*(q[3]*c[k]+d[k]); } }; (void)rot; "
BONES = lambda n, pa, ex="": "std::vector<CRigBone> B(%d); { const int PA[]=%s; for(int i=0;i<%d;++i){ B[i].ibone_parent=PA[i]; %s } } const int PB[]=%s; (void)PB; " % (n, pa, n, ex, pa)
BTQ = "for(int d=0;d<3;++d){B[i].transRelative[d]=t[3*i+d];} for(int d=0;d<4;++d){B[i].quatRelativeRot[d]=q[4*i+d];} "
BAF = "for(int d=0;d<16;++d){B[i].invBindMat[d]=u[16*i+d]; B[i].affmat3Global[d]=v[16*i+d];} "
SKN = "auto skn=[&](double *o,int i,const double *p){ double w[3]; raff(w,B[i].invBindMat,p); raff(o,B[i].affmat3Global,w); }; (void)skn; "
BAFX = "for(int d=0;d<12;++d){B[i].invBindMat[d]=u[12*i+d]; B[i].affmat3Global[d]=v[12*i+d];} B[i].affmat3Global[12]=B[i].affmat3Global[13]=B[i].affmat3Global[14]=0; B[i].affmat3Global[15]=1; "
M.append((RH, [
 Z("Transpose_Mat", "a:n6", 6, VV_("P", "a", 6) + "std::vector<double> Q; Transpose_Mat(Q,P,2,3); for(int i=0;i<2;++i){for(int j=0;j<3;++j){z[3*i+j]=Q[2*j+i]-a[3*i+j];}}", "rows become columns"),
 Z("Points3_WeighttranspPosition", "w:n6, a:n3p3", 6, VV_("P", "a", 9) + VV_("Q", "w", 6) + "std::vector<double> O; Points3_WeighttranspPosition(O,Q,P); for(int i=0;i<2;++i){for(int d=0;d<3;++d){ z[3*i+d]=O[3*i+d]; for(int j=0;j<3;++j){z[3*i+d]-=w[2*j+i]*a[3*j+d];} }}", "weighted sums of the points"),
 Z("Points3_WeightsparsePosition", "w:n4, a:n4p3", 6, VV_("P", "a", 12) + VV_("Q", "w", 4) + "const std::vector<unsigned> I{2,0,1,3}; std::vector<double> O; Points3_WeightsparsePosition(O,2,Q,I,P); for(int i=0;i<2;++i){for(int d=0;d<3;++d){ z[3*i+d]=O[3*i+d]-w[2*i]*a[3*I[2*i]+d]-w[2*i+1]*a[3*I[2*i+1]+d]; }}", "weighted sums of the listed points"),
 Z("UpdateBoneRotTrans", "t:n12, q:n16, s:n4, p:v3", 28, ROT + BONES(4, "{-1,0,1,0}", BTQ + "B[i].scale=s[i];") + "UpdateBoneRotTrans(B); for(int i=0;i<4;++i){ double x[3]={p[0],p[1],p[2]},y[3],w[3]; raff(w,B[i].affmat3Global,p); for(int j=i;j>=0;j=PB[j]){ for(int d=0;d<3;++d){x[d]*=s[j];} rot(y,q+4*j,x); for(int d=0;d<3;++d){x[d]=y[d]+t[3*j+d];} } for(int d=0;d<3;++d){z[7*i+d]=w[d]-x[d];} for(int d=0;d<4;++d){z[7*i+3+d]=B[i].affmat3Global[12+d]-(d==3?1:0);} }", "scale, rotate, translate, then the parent"),
 Z("CRigBone::DeformSkin", "u:n12, v:n12, p:v3, r:v3", 6, BONES(1, "{-1}", BAFX) + SKN + "double o[3],w[3]; skn(w,0,p); B[0].DeformSkin(o,p); for(int d=0;d<3;++d){z[d]=o[d]-w[d];} B[0].SetTranslation(r[0],r[1],r[2]); for(int d=0;d<3;++d){z[3+d]=B[0].transRelative[d]-r[d];}", "bind matrix, then the pose"),
 Z("Skinning_LBS", "u:n36, v:n36, a:n2p3, w:n6", 6, BONES(3, "{-1,0,1}", BAFX) + SKN + VV_("P", "a", 6) + VV_("W", "w", 6) + "std::vector<double> O; Skinning_LBS(O,P,B,W); for(int i=0;i<2;++i){ double s[3]={0,0,0}; for(int b=0;b<3;++b){ double y[3]; skn(y,b,a+3*i); for(int d=0;d<3;++d){s[d]+=w[3*i+b]*y[d];} } for(int d=0;d<3;++d){z[3*i+d]=O[3*i+d]-s[d];} }", "weighted sum over the bones"),
 Z("SkinningSparse_LBS", "u:n36, v:n36, a:n2p3, w:n4", 6, BONES(3, "{-1,0,1}", BAFX) + SKN + VV_("P", "a", 6) + VV_("W", "w", 4) + "const std::vector<unsigned> I{2,0,1,2}; std::vector<double> O; SkinningSparse_LBS(O,P,B,W,I); for(int i=0;i<2;++i){ double s[3]={0,0,0}; for(int b=0;b<2;++b){ double y[3]; skn(y,I[2*i+b],a+3*i); for(int d=0;d<3;++d){s[d]+=w[2*i+b]*y[d];} } for(int d=0;d<3;++d){z[3*i+d]=O[3*i+d]-s[d];} }", "weighted sum over the listed bones"),
 Z("Skinning_LBS_LocalWeight", "u:n36, v:n36, a:n2p3, w:n8", 6, BONES(3, "{-1,0,1}", BAFX) + SKN + "static const unsigned I[8]={2,0,1,2,0,1,1,2}; double O[6]; Skinning_LBS_LocalWeight(O,a,2,B,w,I); for(int i=0;i<2;++i){ double s[3]={0,0,0},m=0; for(int b=0;b<4;++b){ if(w[4*i+b]<1.0e-30){continue;} double y[3]; skn(y,I[4*i+b],a+3*i); m+=w[4*i+b]; for(int d=0;d<3;++d){s[d]+=w[4*i+b]*y[d];} } for(int d=0;d<3;++d){z[3*i+d]=O[3*i+d]*m-s[d];} }", "normalised weighted sum over the listed bones"),
 Z("InitBones_JointPosition", "a:n4p3, p:v3", 28, "std::vector<CRigBone> B; static const unsigned PA[4]={4294967295u,0,1,0}; InitBones_JointPosition(B,4,PA,a); for(int i=0;i<4;++i){ double o[3]; B[i].DeformSkin(o,p); for(int d=0;d<3;++d){z[7*i+d]=o[d]-p[d]; z[7*i+3+d]=B[i].affmat3Global[4*d+3]-a[3*i+d];} z[7*i+6]=double(B[i].ibone_parent)-(i==0?-1:int(PA[i])); }", "the rest pose deforms nothing and puts every joint at its position"),
 Z("SetCurrentBoneRotationAsDefault", "t:n9, q:n12, u:n36, p:v3", 21, BONES(3, "{-1,0,1}", BTQ + "for(int d=0;d<12;++d){B[i].invBindMat[d]=u[12*i+d];}") + "UpdateBoneRotTrans(B); double o[3][3],w[3]; for(int i=0;i<3;++i){ B[i].DeformSkin(o[i],p); } SetCurrentBoneRotationAsDefault(B); for(int i=0;i<3;++i){ B[i].DeformSkin(w,p); for(int d=0;d<3;++d){z[7*i+d]=w[d]-o[i][d];} for(int d=0;d<4;++d){z[7*i+3+d]=B[i].quatRelativeRot[d]-(d==3?1:0);} }", "the pose stays, the rotations become identity"),
 Z("SetMat4AffineBone_FromJointRelativeRotation", "r:v3, q:n12, a:n3p3, p:v3", 9, ROT + VV_("Q", "q", 12) + VV_("J", "a", 9) + "const std::vector<int> PA{-1,0,1}; std::vector<double> A(48); SetMat4AffineBone_FromJointRelativeRotation(A,r,Q,PA,J); for(int i=0;i<3;++i){ double x[3]={p[0],p[1],p[2]},y[3],w[3]; raff(w,&A[16*i],p); for(int j=i;j>0;--j){ for(int d=0;d<3;++d){x[d]-=a[3*j+d];} rot(y,q+4*j,x); for(int d=0;d<3;++d){x[d]=y[d]+a[3*j+d];} } rot(y,q,x); for(int d=0;d<3;++d){z[3*i+d]=w[d]-y[d]-r[d];} }", "rotations about the joints, then the root"),
 Z("Rig_SkinReferncePositionsBoneWeighted", "u:n24, v:n24, a:n2p3, w:n4", 16, BONES(2, "{-1,0}", BAFX) + VV_("P", "a", 6) + VV_("W", "w", 4) + "std::vector<double> O; Rig_SkinReferncePositionsBoneWeighted(O,B,P,W); for(int i=0;i<2;++i){for(int b=0;b<2;++b){ double y[3]; raff(y,B[b].invBindMat,a+3*i); for(int d=0;d<4;++d){ z[8*i+4*b+d]=O[8*i+4*b+d]-w[2*i+b]*(d==3?1:y[d]); } }}", "weighted bind positions"),
]))
PV2 = lambda v, p, n: "std::vector<CVec2d> %s; %s.resize(%d); for(int i=0;i<%d;++i){%s[i].p[0]=%s[2*i]; %s[i].p[1]=%s[2*i+1];} " % (v, v, n, n, v, p, v, p)
MOM = "auto mom=[](double *o,const double *a,int n,const double *c){ for(int i=0;i<6;++i){o[i]=0;} for(int i=0;i<n;++i){ const double *p=a+2*i,*q=a+2*((i+1)%n); double x=p[0]-c[0],y=p[1]-c[1],u=q[0]-c[0],v=q[1]-c[1],s=x*v-y*u; o[0]+=s/2; o[1]+=s*(x+u)/6; o[2]+=s*(y+v)/6; o[3]+=s*(y*y+y*v+v*v)/12; o[4]+=s*(x*x+x*u+u*u)/12; o[5]+=s*(2*x*y+x*v+u*y+2*u*v)/24; } }; "
PGH = ["!quiet", "geo_polygon2.h"]
M.append((PGH, [
 Z("Length_Polygon/Area_Polygon", "a:n4p2", 2, DIST + PV2("P", "a", 4) + "z[0]=Length_Polygon(P); z[1]=Area_Polygon(P); for(int i=0;i<4;++i){ const double *p=a+2*i,*q=a+2*((i+1)%4); z[0]-=dst(p,q,2); z[1]-=(p[0]*q[1]-p[1]*q[0])/2; }", "perimeter and shoelace area"),
 Z("CgArea_Polygon", "a:n4p2", 3, MOM + PV2("P", "a", 4) + "CVec2d c; double A; CgArea_Polygon(c,A,P); double o[6]; double C[2]={0,0}; mom(o,a,4,C); z[0]=A-o[0]; z[1]=c.p[0]*o[0]-o[1]; z[2]=c.p[1]*o[0]-o[2];", "area and first moments"),
 Z("RotationalMomentPolar_Polygon2", "a:n4p2, c:v2", 1, MOM + PV2("P", "a", 4) + "double o[6]; mom(o,a,4,c); z[0]=RotationalMomentPolar_Polygon2(P,V2(c))-o[3]-o[4];", "integral of the squared distance to the pivot"),
 Z("SecondMomentOfArea_Polygon", "a:n3p2", 10, MOM + PV2("P", "a", 3) + "CVec2d c,u,v; double A,I=0,J=0; SecondMomentOfArea_Polygon(c,A,u,I,v,J,P); double o[6],C[2]={0,0}; mom(o,a,3,C); z[0]=A-o[0]; z[1]=c.p[0]*A-o[1]; z[2]=c.p[1]*A-o[2]; double D[2]={c.p[0],c.p[1]}; mom(o,a,3,D); z[3]=u.p[0]*u.p[0]+u.p[1]*u.p[1]-1; z[4]=v.p[0]+u.p[1]; z[5]=v.p[1]-u.p[0]; z[6]=I+J-o[3]-o[4]; z[7]=I*J-o[3]*o[4]+o[5]*o[5]; z[8]=o[3]*u.p[0]*u.p[0]+o[4]*u.p[1]*u.p[1]-2*o[5]*u.p[0]*u.p[1]-I; z[9]=(o[3]-o[4])*u.p[0]*u.p[1]+o[5]*(u.p[0]*u.p[0]-u.p[1]*u.p[1]);", "principal moments about the centre and their axes"),
 Z("SecondMomentOfArea_Polygon(square)", "h:s, x:s, y:s", 3, "const double a[8]={x,y,x+h,y,x+h,y+h,x,y+h}; " + PV2("P", "a", 4) + "CVec2d c,u,v; double A,I=0,J=0; SecondMomentOfArea_Polygon(c,A,u,I,v,J,P); z[0]=I-h*h*h*h/12; z[1]=J-h*h*h*h/12; z[2]=A-h*h;", "equal principal moments of a square"),
]))
PLH = ["!quiet", "geo_tri.h", "geo_edge.h", "geo_polyline.h"]
M.append((PLH, [
 Z("Length_Polyline/Area_Polyline2", "a:n4p2", 2, DIST + PV2("P", "a", 4) + "z[0]=Length_Polyline(P); z[1]=Area_Polyline2(P); for(int i=0;i<3;++i){ const double *p=a+2*i,*q=a+2*i+2; z[0]-=dst(p,q,2); z[1]-=(p[0]*q[1]-p[1]*q[0])/2; }", "sums over the edges"),
 Z("AABB_Polyline", "a:n3p2", 4, PV2("P", "a", 3) + "auto b=AABB_Polyline(P); for(int d=0;d<2;++d){ double l=a[d],u=a[d]; for(int i=1;i<3;++i){ l=a[2*i+d]<l?a[2*i+d]:l; u=a[2*i+d]>u?a[2*i+d]:u; } z[d]=b[d]-l; z[2+d]=b[2+d]-u; }", "least and greatest coordinates"),
 Z("FindNearestPointInPoints", "a:n3p2, c:v2", 1, DIST + PV2("P", "a", 3) + "unsigned k=FindNearestPointInPoints(P,V2(c)); double d=dst(P[k].p,c,2), m=-1; for(int i=0;i<3;++i){ double e=dst(a+2*i,c,2); m=(i==0||e<m)?e:m; } z[0]=d-m;", "the nearest point"),
 Z("Nearest_Polyline", "a:n3p2, c:v2", 1, DIST + PV2("P", "a", 3) + "double r=Nearest_Polyline(P,V2(c)); double m=-1,f=0; for(int i=0;i<2;++i){ const double *p=a+2*i,*q=p+2; double u[2]={q[0]-p[0],q[1]-p[1]},w[2]={c[0]-p[0],c[1]-p[1]}; double t=(u[0]*w[0]+u[1]*w[1])/(u[0]*u[0]+u[1]*u[1]); t=t<0?0:(t>1?1:t); double x[2]={p[0]+t*u[0],p[1]+t*u[1]}; double e=dst(x,c,2); if(i==0||e<m){ m=e; f=i+t; } } z[0]=r-f;", "parameter of the nearest point"),
 Z("ArcLengthPointInPolyline", "a:n3p2, c:v2", 1, DIST + PV2("P", "a", 3) + "double r=ArcLengthPointInPolyline(P,V2(c)); double m=-1,f=0,L=0; for(int i=0;i<2;++i){ const double *p=a+2*i,*q=p+2; double u[2]={q[0]-p[0],q[1]-p[1]},w[2]={c[0]-p[0],c[1]-p[1]}; double t=(u[0]*w[0]+u[1]*w[1])/(u[0]*u[0]+u[1]*u[1]); t=t<0?0:(t>1?1:t); double x[2]={p[0]+t*u[0],p[1]+t*u[1]}; double e=dst(x,c,2), l=dst(p,q,2); if(i==0||e<m){ m=e; f=L+t*l; } L+=l; } z[0]=r-f;", "length up to the nearest point"),
 Z("Smooth_Polyline", "a:n5p2, s:s", 10, PV2("P", "a", 5) + "Smooth_Polyline(P,1u,s); double p[10]; for(int i=0;i<10;++i){p[i]=a[i];} for(int i=1;i<3;++i){for(int d=0;d<2;++d){ p[2*i+d]=s*p[2*i+d]+(1-s)*(p[2*i-2+d]+p[2*i+2+d])/2; }} for(int i=0;i<10;++i){z[i]=P[i/2].p[i%2]-p[i];}", "inner points move towards the middle of their neighbours"),
 Z("Sample_Polyline", "a:n4p2", 12, PV2("P", "a", 4) + "const double t[4]={1.25,2.75,-1,5}; for(int k=0;k<4;++k){ double s=t[k]<0?0:(t[k]>3?3:t[k]); int e=k==0?1:(k==2?0:2); auto q=Sample_Polyline(P,t[k]); auto r=Tangent_Polyline(P,t[k]); for(int d=0;d<2;++d){ z[2*k+d]=q.p[d]-a[2*e+d]-(s-e)*(a[2*e+2+d]-a[2*e+d]); if(k!=2){ z[k==3?10+d:8+2*0+d]=r.p[d]-a[2*e+2+d]+a[2*e+d]; } } }", "linear between the points"),
 Z("WindingNumber_Polyline2", "a:n4p2, c:v2", 1, PV2("P", "a", 4) + "double w=WindingNumber_Polyline2(P,V2(c)); double x=a[0]-c[0],y=a[1]-c[1],u=a[6]-c[0],v=a[7]-c[1]; z[0]=std::sin(w)*(x*u+y*v)-std::cos(w)*(x*v-y*u);", "the angles add up to the angle between the ends"),
]))
SVDSTUB = "!raw #define SVD3_H_\n#include <tuple>\nstatic double gA[9]; static const double gR[9]={0,-1,0,1,0,0,0,0,1};\nnamespace delfem2 { template <typename MAT> std::tuple<MAT,MAT,MAT> Svd3(const MAT& m, int){ return {m,m,m}; } inline void GetRotPolarDecomp(double R[9], const double A[9], int){ for(int i=0;i<9;++i){ gA[i]=A[i]; R[i]=gR[i]; } } }\n"
PBR = ["!quiet", SVDSTUB, "mat2.h", "pbd_geo3.h"]
M.append((PBR, [
 Z("PBD_ConstProj_Rigid3D", "a:n4p3, b:n4p3, s:s", 30, "double p[12]; for(int i=0;i<12;++i){p[i]=b[i];} static const int I[2]={0,3},J[3]={3,0,2}; PBD_ConstProj_Rigid3D(p,s,I,2,J,3,a,4); double P[3]={0,0,0},Q[3]={0,0,0}; for(int k:J){for(int d=0;d<3;++d){P[d]+=b[3*k+d]/3; Q[d]+=a[3*k+d]/3;}} for(int i=0;i<30;++i){z[i]=0;} for(int d=0;d<3;++d){z[3+d]=p[3+d]-b[3+d];} for(int k:J){ double q[3],g[3]; rsub(q,a+3*k,Q); rmv(g,gR,q,3); for(int d=0;d<3;++d){ z[3*k+d]=p[3*k+d]-s*(P[d]+g[d])-(1-s)*b[3*k+d]; } } for(int i=0;i<9;++i){ double t=gA[i]; for(int k:J){ t-=(b[3*k+i/3]-P[i/3])*(a[3*k+i%3]-Q[i%3]); } z[12+i]=t; }", "the goal is the rotated rest shape at the common centre; covariance of deformed and rest positions"),
 Z("PBD_ConstProj_Rigid2D", "a:n4p2, b:n4p2, s:s", 8, "double p[8]; for(int i=0;i<8;++i){p[i]=b[i];} static const unsigned I[2]={0,3},J[3]={3,0,2}; PBD_ConstProj_Rigid2D(p,s,I,2,J,3,a,4); double P[2]={0,0},Q[2]={0,0}; for(int k:J){for(int d=0;d<2;++d){P[d]+=b[2*k+d]/3; Q[d]+=a[2*k+d]/3;}} double h[4]={0,0,0,0},g[4]; for(int k:J){ double x=a[2*k]-Q[0],y=a[2*k+1]-Q[1],u=b[2*k]-P[0],v=b[2*k+1]-P[1]; h[0]+=x*u; h[1]+=u*y; h[2]+=x*v; h[3]+=y*v; } RotationalComponentOfMatrix2(g,h); for(int i=0;i<8;++i){z[i]=0;} for(int d=0;d<2;++d){z[2+d]=p[2+d]-b[2+d];} for(int k:J){ double x=a[2*k]-Q[0],y=a[2*k+1]-Q[1]; z[2*k]=p[2*k]-s*(P[0]+g[0]*x+g[1]*y)-(1-s)*b[2*k]; z[2*k+1]=p[2*k+1]-s*(P[1]+g[2]*x+g[3]*y)-(1-s)*b[2*k+1]; }", "the goal is the best rotation of the rest shape at the common centre"),
]))
DAH = ["!quiet", SVDSTUB, "!raw #define private public\n", "msh_topology_uniform.h", "!raw namespace delfem2 { inline void psup_stub(std::vector<unsigned> &I,std::vector<unsigned> &J,const unsigned *,size_t,unsigned,size_t) { static const unsigned i_[4]={0,2,4,6},j_[6]={1,2,0,2,0,1}; I.resize(4); J.resize(6); for(int k=0;k<4;++k){I[k]=i_[k];} for(int k=0;k<6;++k){J[k]=j_[k];} } }\n#define JArray_PSuP_MeshElem psup_stub\n", "defarap.h"]
GRPH = "const std::vector<unsigned> GI{0,2,4,6},GJ{1,2,0,2,0,1}; (void)GI; (void)GJ; "
M.append((DAH, [
 Z("dWddW_ArapEnergy", "a:n4p3, b:n4p3, m:n9, q:n16, u:n12", 24, ROT + VV_("A", "a", 12) + VV_("B", "b", 12) + VV_("Q", "q", 16) + "const std::vector<unsigned> I{1,3,0,2}; std::vector<double> H,G; deflap::dWddW_ArapEnergy(H,G,m,I,A,B,Q); const int c=2; double R[9]; for(int k=0;k<3;++k){ double e[3]={k==0?1.:0.,k==1?1.:0.,k==2?1.:0.},o[3]; rot(o,q+4*c,e); for(int d=0;d<3;++d){R[3*d+k]=o[d];} } double RT[9]; rtr(RT,R,3); double w[3]={0,0,0}; for(int k=0;k<3;++k){ double v[3],d[3],e[3],x[3]; rsub(v,a+3*I[k],a+3*c); rsub(d,u+3*I[k],u+3*c); rmv(e,RT,d,3); rcross(x,v,e); for(int i=0;i<3;++i){w[i]+=x[i];} } double om[3]; rmv(om,m,w,3); double C[6]={0,0,0,0,0,0}; for(int k=0;k<3;++k){ double v[3],d[3],x[3],y[3],e[3],f[3]; rsub(v,a+3*I[k],a+3*c); rsub(d,u+3*I[k],u+3*c); rcross(x,v,om); rmv(y,R,x,3); rsub(e,b+3*I[k],b+3*c); rmv(f,R,v,3); for(int i=0;i<3;++i){ double r=d[i]-y[i], s=e[i]-f[i]; z[3*k+i]=-r; z[12+3*k+i]=G[3*k+i]-s; C[i]+=r; C[3+i]+=s; } } for(int i=0;i<3;++i){ z[9+i]=C[i]; z[21+i]=G[9+i]+C[3+i]; } for(int k=0;k<4;++k){for(int i=0;i<3;++i){for(int l=0;l<4;++l){for(int j=0;j<3;++j){ z[3*k+i]+=H[(k*4+l)*9+3*i+j]*u[3*I[l]+j]; }}}}", "gradient of half the squared edge deviations, Hessian with the rotation eliminated"),
 Z("CDef_ArapEdgeLinearDisponly", "a:n3p3, b:n3p3, x:n9, y:n9, al:s, be:s, wt:s", 18, "const std::vector<unsigned> T{0,1,2}; " + VV_("A", "a", 9) + "CDef_ArapEdgeLinearDisponly D(A,T,wt,{0,1,0,0,0,0,0,0,1}); double r[9],Y[9]; for(int i=0;i<9;++i){r[i]=x[i]; Y[i]=y[i];} D.MakeLinearSystem(r,a,b); for(int i=0;i<3;++i){for(int d=0;d<3;++d){ z[3*i+d]=r[3*i+d]; for(int j=0;j<3;++j){ z[3*i+d]-=2*((b[3*j+d]-b[3*i+d])-(a[3*j+d]-a[3*i+d])); } }} D.MatVec(Y,al,x,be); for(int i=0;i<3;++i){for(int d=0;d<3;++d){ int k=3*i+d; z[9+k]=Y[k]-be*y[k]-(k==1||k==8?wt*x[k]:0); for(int j=0;j<3;++j){ z[9+k]-=al*2*(x[k]-x[3*j+d]); } }}", "normal equations of the edge differences"),
 Z("CDef_ArapEdge", "a:n3p3, b:n3p3, q:n12, x:n18, y:n18, al:s, be:s, wt:s", 36, ROT + "const std::vector<unsigned> T{0,1,2}; " + VV_("A", "a", 9) + "CDef_ArapEdge D; D.Init(A,T,wt,{0,1,0,0,0,0,0,0,1},false); double r[18],Y[18],E[18],F[18]; for(int i=0;i<18;++i){r[i]=x[i]; Y[i]=y[i]; E[i]=F[i]=0;} D.MakeLinearSystem(r,a,b,q); D.MatVec(Y,al,x,be); for(int i=0;i<3;++i){for(int j=0;j<3;++j){ if(i==j){continue;} double v[3],R[3],e[3],c[3],g[3],m[3],n[3]; rsub(v,a+3*j,a+3*i); rot(R,q+4*i,v); rcross(c,x+9+3*i,R); for(int d=0;d<3;++d){ e[d]=R[d]-(b[3*j+d]-b[3*i+d]); g[d]=x[3*i+d]-x[3*j+d]+c[d]; } rcross(m,R,e); rcross(n,R,g); for(int d=0;d<3;++d){ E[3*i+d]-=e[d]; E[3*j+d]+=e[d]; E[9+3*i+d]-=m[d]; F[3*i+d]+=g[d]; F[3*j+d]-=g[d]; F[9+3*i+d]+=n[d]; } }} for(int i=0;i<18;++i){ z[i]=r[i]-E[i]; z[18+i]=Y[i]-be*y[i]-al*F[i]-(i==1||i==8?wt*x[i]:0); }", "normal equations of the edge deviations in displacement and rotation"),
 Z("CDef_ArapEdge::SolvePrecond", "a:n3p3, b:n3p3, q:n12, x:n18, wt:s", 18, ROT + "const std::vector<unsigned> T{0,1,2}; " + VV_("A", "a", 9) + "CDef_ArapEdge D; D.Init(A,T,wt,{0,1,0,0,0,0,0,0,1},true); double r[18],v[18]; D.MakeLinearSystem(r,a,b,q); D.MakePreconditionerJacobi(); for(int i=0;i<18;++i){v[i]=x[i];} D.SolvePrecond(v); for(int i=0;i<18;++i){ z[i]=-x[i]; } for(int i=0;i<3;++i){ for(int d=0;d<3;++d){ int k=3*i+d; z[k]+=(4+(k==1||k==8?wt:0))*v[k]; } for(int j=0;j<3;++j){ if(i==j){continue;} double u[3],R[3],c[3],n[3]; rsub(u,a+3*j,a+3*i); rot(R,q+4*i,u); rcross(c,v+9+3*i,R); rcross(n,R,c); for(int d=0;d<3;++d){ z[9+3*i+d]+=n[d]; } } }", "inverse of the diagonal blocks"),
 Z("UpdateRotationsByMatchingCluster_Linear", "a:n4p3, b:n4p3, q:n16", 4, VV_("A", "a", 12) + VV_("B", "b", 12) + VV_("Q", "q", 16) + ROT + "const std::vector<unsigned> I{0,3,3,3,3},J{1,3,2}; UpdateRotationsByMatchingCluster_Linear(Q,A,B,I,J); double K_[9]={0,0,0,0,0,0,0,0,0},f[3]={0,0,0}; for(unsigned j:J){ double v[3],r[3],e[3],c[3]; rsub(v,a+3*j,a); rot(r,q,v); for(int d=0;d<3;++d){e[d]=b[3*j+d]-b[d]-r[d];} rcross(c,r,e); double l=rdot(r,r); for(int s=0;s<3;++s){ f[s]+=c[s]; for(int t=0;t<3;++t){ K_[3*s+t]+=(s==t?l:0)-r[s]*r[t]; } } } double V[9],w[3],q0[4],q1[4]; rinv<3>(V,K_,3); rmv(w,V,f,3); Quat_CartesianAngle(q0,w); QuatQuat(q1,q0,q); for(int i=0;i<4;++i){z[i]=Q[i]-q1[i];}", "least squares rotation of the edges around the point"),
]))
RAWCOPY = "!raw #include <cstddef>\ntemplate<class T> inline void *dfm2_mm(T *d, const T *s, std::size_t n) { for(std::size_t i=0;i<n/sizeof(T);++i){ d[i]=s[i]; } return d; }\ninline void *dfm2_mm(void *d, const void *s, std::size_t n) { return __builtin_memcpy(d,s,n); }\n#define __builtin_memmove dfm2_mm\n"
G4 = "!raw namespace delfem2 { inline void psup_stub(std::vector<unsigned> &I,std::vector<unsigned> &J,const unsigned *,size_t,unsigned,size_t) { static const unsigned i_[5]={0,2,5,8,10},j_[10]={1,2,0,2,3,0,1,3,1,2}; I.resize(5); J.resize(10); for(int k=0;k<5;++k){I[k]=i_[k];} for(int k=0;k<10;++k){J[k]=j_[k];} } inline void ext_stub(std::vector<unsigned> &I,std::vector<unsigned> &J,const unsigned *,size_t,const unsigned *) { static const unsigned j_[12]={1,2,3,0,2,3,0,1,3,0,1,2}; I.resize(5); J.resize(12); for(int k=0;k<5;++k){I[k]=3*k;} for(int k=0;k<12;++k){J[k]=j_[k];} } }\n#define JArray_PSuP_MeshElem psup_stub\n#define JArray_Extend ext_stub\n"
DLH = [RAWCOPY, "!quiet", SVDSTUB, "!raw #include <cstring>\n", "msh_topology_uniform.h", "jagarray.h", G4, "deflap.h"]
LAP = "auto lap=[](double *o,const double *x){ static const int I[5]={0,2,5,8,10},J[10]={1,2,0,2,3,0,1,3,1,2}; for(int i=0;i<4;++i){for(int d=0;d<3;++d){ double s=(I[i+1]-I[i])*x[3*i+d]; for(int k=I[i];k<I[i+1];++k){ s-=x[3*J[k]+d]; } o[3*i+d]=s; }} }; "
FIX = "std::vector<int> F{0,1,0,0,0,0,0,0,1,0,0,0}; "
DLT = "const std::vector<unsigned> T{0,1,2,2,1,3}; "
M.append((DLH, [
 Z("DualLaplacianSymbolic", "u:n12", 16, "std::vector<double> E,H; const std::vector<unsigned> I{3,0,2,1}; defarap::DualLaplacianSymbolic_1x1(E,I); defarap::DualLaplacianSymbolic_3x3(H,I); for(int i=0;i<4;++i){ z[i]=0; for(int d=0;d<3;++d){z[4+3*i+d]=0;} } const double c[4]={-1,-1,-1,3}; for(int i=0;i<4;++i){for(int j=0;j<4;++j){ z[i]+=(E[4*i+j]-c[i]*c[j])*u[j]; for(int d=0;d<3;++d){ z[4+3*i+d]-=c[i]*c[j]*u[3*j+d]; for(int e=0;e<3;++e){ z[4+3*i+d]+=H[(4*i+j)*9+3*d+e]*u[3*j+e]; } } }}", "square of the Laplacian at one point"),
 Z("CDef_LaplacianLinearAsym", "a:n4p3", 12, LAP + DLT + VV_("A", "a", 12) + "CDef_LaplacianLinearAsym D; D.Init(A,T); lap(z,a); for(int i=0;i<12;++i){z[i]-=D.aRhs0[i];}", "graph Laplacian of the rest shape", again=10),
 Z("CDef_LaplacianLinearGram", "a:n4p3, x:n12, y:n12, al:s, be:s", 24, LAP + DLT + FIX + VV_("A", "a", 12) + "CDef_LaplacianLinearGram D; D.Init(A,T,false); D.aBCFlag=F; D.vec_tmp2.resize(12); double l[12],m[12],Y[12]; for(int i=0;i<12;++i){Y[i]=y[i];} lap(l,a); D.MatVec(Y,al,x,be); for(int i=0;i<12;++i){z[i]=D.aRes0[i]+l[i];} lap(l,x); lap(m,l); for(int i=0;i<12;++i){z[12+i]=Y[i]-be*y[i]-al*m[i]-(F[i]?100*x[i]:0);}", "square of the graph Laplacian", again=10),
 Z("CDef_LaplacianLinearGram::SolvePrecond", "a:n4p3, x:n12, w:s", 12, DLT + FIX + VV_("A", "a", 12) + "CDef_LaplacianLinearGram D; D.Init(A,T,true); D.aBCFlag=F; D.weight_bc=w; D.SetBoundaryConditionToPreconditioner(); double v[12]; for(int i=0;i<12;++i){v[i]=x[i];} D.SolvePrecond(v); const double g[4]={6,12,12,6}; for(int i=0;i<12;++i){z[i]=v[i]*(g[i/3]+(F[i]?w:0))-x[i];}", "inverse of the diagonal of the square", again=10),
]))
for cls, d, e in (("CDef_LaplacianLinear", 3, ""), ("CDef_LaplacianLinearDegenerate", 1, "Deg")):
    k = SP(cls + "::MatVec", "PF", d, "x:n9, y:n9, al:s, be:s, nn:n3, w:s, s:s", 9, "D.aBCFlag=std::vector<int>{0,1,0,0,0,0,0,0,1}; D.weight_bc=w; D.weight_nrm=s; D.aIdpNrm.resize(1); D.aIdpNrm[0].first=2; for(int d=0;d<3;++d){D.aIdpNrm[0].second.p[d]=nn[d];} double Y[9]; for(int i=0;i<9;++i){Y[i]=y[i];} D.MatVec(Y,al,x,be); for(int i=0;i<9;++i){ double r=be*y[i]+(i==1||i==8?w*x[i]:0)+(i/3==2?s*al*rdot(nn,x+6)*nn[i%3]:0); for(int j=0;j<9;++j){ " + ("r+=al*D0[i][j]*x[j];" if d == 3 else "if(i%3==j%3){ r+=al*D0[i/3][j/3]*x[j]; }") + " } z[i]=Y[i]-r; }", "the matrix, sliding planes and fixed points")
    M.append((DLH, [k]))
k = SP("CDef_LaplacianLinearDegenerate::SolvePrecond", "PF", 1, "x:n9, nn:n3, w:s, s:s", 9, "D.is_preconditioner=true; D.aBCFlag=std::vector<int>{0,1,0,0,0,0,0,0,1}; D.weight_bc=w; D.weight_nrm=s; D.aIdpNrm.resize(1); D.aIdpNrm[0].first=2; for(int d=0;d<3;++d){D.aIdpNrm[0].second.p[d]=nn[d];} D.SetBoundaryConditionToPreconditioner(); double u[9]; for(int i=0;i<9;++i){u[i]=x[i];} D.SolvePrecond(u); for(int i=0;i<9;++i){ z[i]=(D0[i/3][i/3]+(i==1||i==8?w:0))*u[i]+(i/3==2?s*rdot(nn,u+6)*nn[i%3]:0)-x[i]; }", "inverse of the diagonal blocks")
M.append((DLH, [k]))
for h, ks in M[-3:]:
    for k in ks:
        k.body = k.body.replace("CMatrixSparse<T> A;", k.name.split("::")[0] + " D; CMatrixSparse<T> &A=D.Mat;")
M = [(h, [k]) for h, ks in M for k in ks]

# ---------------------------------------------------------------- G: fields, cameras, bounding volumes, special functions (C28)
G = []
FDH = ["!quiet", "fdm_stablefluids.h"]
FA = lambda v, p, ni, nj: "FdmArray2<double> %s(%d,%d); for(int i=0;i<%d;++i){%s.v[i]=%s[i];} " % (v, ni, nj, ni * nj, v, p)
FV = lambda v, p, ni, nj: "FdmArray2<std::array<double,2>> %s(%d,%d); for(int i=0;i<%d;++i){%s.v[i][0]=%s[2*i]; %s.v[i][1]=%s[2*i+1];} " % (v, ni, nj, ni * nj, v, p, v, p)
G.append((FDH, [
 Z("SolvePoissionEquationOnGrid2ByGaussSeidelMethod", "p:n6, d:n6, s:s", 6, FA("P", "p", 3, 2) + FA("D", "d", 3, 2) + "SolvePoissionEquationOnGrid2ByGaussSeidelMethod(P,D,s,3,2,1u); double o[6]; for(int i=0;i<6;++i){o[i]=p[i];} for(int k=0;k<6;++k){ int i=k%3,j=k/3; auto at=[&](int ii,int jj){ ii=ii<0?0:(ii>2?2:ii); jj=jj<0?0:(jj>1?1:jj); return o[ii+3*jj]; }; o[k]=(at(i+1,j)+at(i-1,j)+at(i,j+1)+at(i,j-1)-s*d[k])/4; } for(int k=0;k<6;++k){z[k]=P.v[k]-o[k];}", "one Gauss-Seidel sweep of the five-point stencil with reflecting boundary", again=9),
 Z("SolvePoissionEquationOnGrid2ByGaussSeidelMethod (two sweeps)", "p:n4, d:n4, s:s", 4, FA("P", "p", 2, 2) + FA("Q", "p", 2, 2) + FA("D", "d", 2, 2) + "SolvePoissionEquationOnGrid2ByGaussSeidelMethod(P,D,s,2,2,2u); SolvePoissionEquationOnGrid2ByGaussSeidelMethod(Q,D,s,2,2,1u); SolvePoissionEquationOnGrid2ByGaussSeidelMethod(Q,D,s,2,2,1u); for(int k=0;k<4;++k){z[k]=P.v[k]-Q.v[k];}", "two sweeps are one sweep twice", again=9),
 Z("Divergence_StaggerdGrid2", "u:n8, v:n9, h:s", 6, FA("U", "u", 4, 2) + FA("V", "v", 3, 3) + "FdmArray2<double> D(3,2,0.0); Divergence_StaggerdGrid2(D,3,2,U,V,h); for(int j=0;j<2;++j){for(int i=0;i<3;++i){ z[i+3*j]=h*D.v[i+3*j]-(u[i+1+4*j]-u[i+4*j])-(v[i+3*(j+1)]-v[i+3*j]); }}", "differences of the velocities on opposite faces", again=9),
 Z("Divergence_CellCenteredGrid2", "u:n24, p:n12, h:s", 12, FV("U", "u", 4, 3) + FA("D", "p", 4, 3) + "Divergence_CellCenteredGrid2(D,4,3,U,h); for(int k=0;k<12;++k){ int i=k%4,j=k/4; z[k]=(i==0||i==3||j==0||j==2)?D.v[k]-p[k]:h*D.v[k]+(u[2*(k+1)]-u[2*(k-1)])+(u[2*(k+4)+1]-u[2*(k-4)+1]); }", "negative central differences inside, untouched on the boundary", again=9),
 Z("SubstructPressureGradient_StaggeredGrid2", "u:n8, v:n9, p:n6, s:s", 17, FA("U", "u", 4, 2) + FA("V", "v", 3, 3) + FA("P", "p", 3, 2) + "SubstructPressureGradient_StaggeredGrid2(U,V,3,2,s,P); for(int j=0;j<2;++j){for(int i=0;i<4;++i){ z[i+4*j]=U.v[i+4*j]-u[i+4*j]+((i==0||i==3)?0:s*(p[i+3*j]-p[i-1+3*j])); }} for(int j=0;j<3;++j){for(int i=0;i<3;++i){ z[8+i+3*j]=V.v[i+3*j]-v[i+3*j]+((j==0||j==2)?0:s*(p[i+3*j]-p[i+3*(j-1)])); }}", "velocities on inner faces lose the pressure difference across the face", again=9),
 Z("SubstructPressureGradient_CellCenteredGrid2", "u:n24, p:n12, s:s", 24, FV("U", "u", 4, 3) + FA("P", "p", 4, 3) + "SubstructPressureGradient_CellCenteredGrid2(U,4,3,s,P); for(int k=0;k<12;++k){ int i=k%4,j=k/4; bool b=(i==0||i==3||j==0||j==2); z[2*k]=2*(U.v[k][0]-u[2*k])-(b?0:s*(p[k+1]-p[k-1])); z[2*k+1]=2*(U.v[k][1]-u[2*k+1])-(b?0:s*(p[k+4]-p[k-4])); }", "central differences inside, untouched on the boundary", again=9),
 Z("FdmArray2::ClampedFetch", "p:n6", 20, FA("P", "p", 3, 2) + "const FdmArray2<double> &Q=P; for(int j=-1;j<3;++j){for(int i=-1;i<4;++i){ int a=i<0?0:(i>2?2:i),b=j<0?0:(j>1?1:j); z[(j+1)*5+i+1]=(((i+j)&1)?P.ClampedFetch(i,j):Q.ClampedFetch(i,j))-p[a+3*b]; }}", "the nearest value on the grid", again=9),
]))
BEH = ["!quiet", "!raw extern \"C\" __attribute__((always_inline)) __complex__ double cexp(__complex__ double c){ __complex__ double r; double e=__builtin_exp(__real__ c); __real__ r=e*__builtin_cos(__imag__ c); __imag__ r=e*__builtin_sin(__imag__ c); return r; }", "bem.h", "mat3_funcs.h"]
BT = "static const unsigned TT[6]={0,1,2,2,1,3}; const std::vector<unsigned> T(TT,TT+6); const std::vector<int> TI(TT,TT+6); (void)TI; (void)T; " + VV_("P", "a", 12)
BT1 = BT.replace("TT[6]={0,1,2,2,1,3}","TT[3]={2,1,3}").replace("TT+6","TT+3")
BQ = UNRM + "static const double QP[2][3][3]={{{1./3,1./3,1},{0,0,0},{0,0,0}},{{1./6,1./6,1./3},{2./3,1./6,1./3},{1./6,2./3,1./3}}}; auto quad=[&](const double *x,const double *q0,const double *q1,const double *q2,int g,auto f){ double n[3]; double ar=un(n,q0,q1,q2); for(int k=0;k<(g?3:1);++k){ double b[3]={QP[g][k][0],QP[g][k][1],1-QP[g][k][0]-QP[g][k][1]}, r[3]; for(int d=0;d<3;++d){ r[d]=x[d]-b[0]*q0[d]-b[1]*q1[d]-b[2]*q2[d]; } double l=std::sqrt(rdot(r,r)); f(QP[g][k][2]*ar,b,r,n,l); } }; (void)quad; "
PI4 = "(4*M_PI*l)"
PI43 = "(4*M_PI*l*l*l)"
for g in (0, 1):
    G.append((BEH, [
 Z("makeLinearSystem_PotentialFlow_Order0th (rule %d)" % g, "a:n4p3, v:v3", 6, BT + BQ + "std::vector<double> A,F; makeLinearSystem_PotentialFlow_Order0th(A,F,V3(v),%d,P,T); for(int i=0;i<2;++i){ double m[3]; for(int d=0;d<3;++d){ m[d]=(a[3*TT[3*i]+d]+a[3*TT[3*i+1]+d]+a[3*TT[3*i+2]+d])/3; } int j=1-i; double c=0,s=0; quad(m,a+3*TT[3*j],a+3*TT[3*j+1],a+3*TT[3*j+2],%d,[&](double w,const double *,const double *r,const double *n,double l){ c+=-w*rdot(r,n)/%s; s+=w*rdot(n,v)/%s; }); z[3*i]=A[2*i+i]-0.5; z[3*i+1]=A[2*i+j]-c; z[3*i+2]=F[i]-s; }" % (g, g, PI43, PI4), "collocation at the centres of the triangles: half on the diagonal, double layer beside it, single layer of the flux on the right", again=9),
 Z("evaluateField_PotentialFlow_Order0th (rule %d)" % g, "a:n4p3, v:v3, x:p3, y:n2", 4, BT + BQ + VV_("Y", "y", 2) + "double phi; CVec3d gr; evaluateField_PotentialFlow_Order0th(phi,gr,V3(x),V3(v),%d,Y,P,T); double f=0,h[3]={v[0],v[1],v[2]}; for(int j=0;j<2;++j){ quad(x,a+3*TT[3*j],a+3*TT[3*j+1],a+3*TT[3*j+2],%d,[&](double w,const double *,const double *r,const double *n,double l){ double vn=rdot(n,v), rn=rdot(r,n); f+=w*(y[j]*rn/%s+vn/%s); for(int d=0;d<3;++d){ h[d]+=w*(y[j]*(n[d]/%s-3*rn*r[d]/(4*M_PI*l*l*l*l*l))-vn*r[d]/%s); } }); } z[0]=phi-f; for(int d=0;d<3;++d){z[1+d]=gr.p[d]-h[d];}" % (g, g, PI43, PI4, PI43, PI43), "double layer of the potential plus single layer of the flux, and its gradient", again=9),
 Z("makeLinearSystem_PotentialFlow_Order1st (rule %d)" % g, "a:n4p3, v:v3, s:n4", 20, (BT if g==0 else BT1) + BQ + VV_("S", "s", 4) + ("std::vector<double> A,F; makeLinearSystem_PotentialFlow_Order1st(A,F,V3(v),%d,P,TI,S); double B[16],f[4]; for(double &t:B){t=0;} for(int i=0;i<4;++i){ f[i]=0; B[5*i]=s[i]/(4*M_PI); for(int j=0;j<"+("2" if g==0 else "1")+";++j){ const unsigned *t=TT+3*j; quad(a+3*i,a+3*t[0],a+3*t[1],a+3*t[2],%d,[&](double w,const double *b,const double *r,const double *n,double l){ for(int k=0;k<3;++k){ B[4*i+t[k]]+=-w*b[k]*rdot(r,n)/%s; } f[i]+=w*rdot(n,v)/%s; }); } } for(int i=0;i<16;++i){z[i]=A[i]-B[i];} for(int i=0;i<4;++i){z[16+i]=F[i]-f[i];}") % (g, g, PI43, PI4), "collocation at the vertices: the solid angle on the diagonal, double layer of the hat functions, single layer of the flux", again=9),
 Z("evaluateField_PotentialFlow_Order1st (rule %d)" % g, "a:n4p3, v:v3, x:p3, y:n4", 4, BT + BQ + VV_("Y", "y", 4) + "double phi; CVec3d gr=evaluateField_PotentialFlow_Order1st(phi,V3(x),V3(v),%d,Y,P,TI); double f=0,h[3]={v[0],v[1],v[2]}; for(int j=0;j<2;++j){ const unsigned *t=TT+3*j; quad(x,a+3*t[0],a+3*t[1],a+3*t[2],%d,[&](double w,const double *b,const double *r,const double *n,double l){ double Yb=b[0]*y[t[0]]+b[1]*y[t[1]]+b[2]*y[t[2]], vn=rdot(n,v), rn=rdot(r,n); f+=w*(Yb*rn/%s+vn/%s); for(int d=0;d<3;++d){ h[d]+=w*(Yb*(n[d]/%s-3*rn*r[d]/(4*M_PI*l*l*l*l*l))-vn*r[d]/%s); } }); } z[0]=phi-f; for(int d=0;d<3;++d){z[1+d]=gr.p[d]-h[d];}" % (g, g, PI43, PI4, PI43, PI43), "double layer of the interpolated potential plus single layer of the flux, and its gradient", again=9),
]))
VSF = "auto frame=[&](double *u,double *w,const double *p,const double *q,const double *s){ double n[3]; un(n,p,q,s); double e[3]={q[0]-p[0],q[1]-p[1],q[2]-p[2]}; double l=std::sqrt(rdot(e,e)); for(int d=0;d<3;++d){u[d]=e[d]/l;} rcross(w,n,u); }; "
VSC = "auto coef=[&](double *C,const double *x0,const double *x1,const double *x2,const double *y0,const double *y1,const double *y2,int g){ double ux[3],vx[3],uy[3],vy[3],m[3]; frame(ux,vx,x0,x1,x2); frame(uy,vy,y0,y1,y2); for(int d=0;d<3;++d){m[d]=(x0[d]+x1[d]+x2[d])/3;} for(int i=0;i<4;++i){C[i]=0;} quad(m,y0,y1,y2,g,[&](double w,const double *,const double *r,const double *,double l){ double c[3],e[3]; rcross(c,vy,r); rcross(e,uy,r); C[0]-=w*rdot(c,ux)/(4*M_PI*l*l*l); C[1]+=w*rdot(e,ux)/(4*M_PI*l*l*l); C[2]-=w*rdot(c,vx)/(4*M_PI*l*l*l); C[3]+=w*rdot(e,vx)/(4*M_PI*l*l*l); }); }; "
G.append((BEH, [
 Z("BEM_VortexSheet_Coeff_0th", "a:n6p3, v:v3", 8, BQ + VSF + VSC + "for(int g=0;g<2;++g){ double C[4],R[4]; BEM_VortexSheet_Coeff_0th(C,V3(a),V3(a+3),V3(a+6),V3(a+9),V3(a+12),V3(a+15),V3(v),g); coef(R,a,a+3,a+6,a+9,a+12,a+15,g); for(int i=0;i<4;++i){z[4*g+i]=C[i]-R[i];} }", "velocity induced along the two tangents at the centre of one triangle by unit sheets along the two tangents of the other"),
 Z("makeLinearSystem_VortexSheet_Order0th", "a:n4p3, v:v3", 20, BT + BQ + VSF + VSC + "std::vector<double> A,F; makeLinearSystem_VortexSheet_Order0th(A,F,V3(v),0,P,TI); for(int i=0;i<2;++i){ const unsigned *t=TT+3*i,*s=TT+3*(1-i); double u[3],w[3],C[4]; frame(u,w,a+3*t[0],a+3*t[1],a+3*t[2]); z[16+2*i]=F[2*i]-rdot(u,v); z[16+2*i+1]=F[2*i+1]-rdot(w,v); coef(C,a+3*t[0],a+3*t[1],a+3*t[2],a+3*s[0],a+3*s[1],a+3*s[2],0); for(int p=0;p<2;++p){for(int q=0;q<2;++q){ z[(2*i+p)*4+2*i+q]=A[(2*i+p)*4+2*i+q]-(p==q?0.5:0); z[(2*i+p)*4+2*(1-i)+q]=A[(2*i+p)*4+2*(1-i)+q]-C[2*p+q]; }} }", "half the identity on the diagonal, induced velocities beside it, tangential free stream on the right", again=9),
 Z("evaluateField_VortexSheet_Order0th", "a:n4p3, x:p3, y:n4", 6, BT + BQ + VSF + VV_("Y", "y", 4) + "CVec3d q=evaluateField_VortexSheet_Order0th(V3(x),Y,1,P,TI,-1), q1=evaluateField_VortexSheet_Order0th(V3(x),Y,1,P,TI,1); double h[2][3]={{0,0,0},{0,0,0}}; for(int j=0;j<2;++j){ const unsigned *t=TT+3*j; double u[3],w_[3]; frame(u,w_,a+3*t[0],a+3*t[1],a+3*t[2]); quad(x,a+3*t[0],a+3*t[1],a+3*t[2],1,[&](double w,const double *,const double *r,const double *,double l){ double c[3],e[3]; rcross(c,w_,r); rcross(e,u,r); for(int d=0;d<3;++d){ double k=w*(c[d]*y[2*j]-e[d]*y[2*j+1])/(4*M_PI*l*l*l); h[0][d]+=k; if(j==0){h[1][d]+=k;} } }); } for(int d=0;d<3;++d){z[d]=q.p[d]-h[0][d]; z[3+d]=q1.p[d]-h[1][d];}", "velocity induced by the sheets of all triangles but the excluded one", again=9),
 Z("veloVortexParticle", "x:p3, a:p3, c:v3, s:s", 15, "CVec3d v=veloVortexParticle(V3(x),V3(a),V3(c),s),w; CMat3d m=gradveloVortexParticle(w,V3(x),V3(a),V3(c),s); double r[3],k[3]; for(int d=0;d<3;++d){r[d]=x[d]-a[d];} double l=std::sqrt(rdot(r,r)), q=l/s, E=std::exp(-q*q*q), f=1-E; rcross(k,c,r); const double S[9]={0,-c[2],c[1],c[2],0,-c[0],-c[1],c[0],0}; for(int d=0;d<3;++d){ double u=f*k[d]/(4*M_PI*l*l*l); z[d]=v.p[d]-u; z[3+d]=w.p[d]-u; for(int e=0;e<3;++e){ double dq=r[e]/(l*s), df=3*q*q*dq*E; z[6+3*d+e]=m.p_[3*d+e]-(f*S[3*d+e]/(4*M_PI*l*l*l)+k[d]*(df/(4*M_PI*l*l*l)-3*f*r[e]/(4*M_PI*l*l*l*l*l))); } }", "velocity of a regularised vortex particle and its spatial derivative"),
 Z("veloVortexParticles", "a:n3p3, c:n9, s:n3", 72, "std::vector<CVortexParticle> Q(3); for(int i=0;i<3;++i){ Q[i].pos=V3(a+3*i); Q[i].circ=V3(c+3*i); Q[i].rad=s[i]; for(int d=0;d<3;++d){Q[i].velo.p[d]=d+i;} for(int d=0;d<9;++d){Q[i].gradvelo.p_[d]=d-i;} } const std::vector<CVortexParticle> R(Q); setGradVeloVortexParticles(Q); for(int i=0;i<3;++i){ CVec3d v=veloVortexParticles(R[i].pos,R,i),w,u(0,0,0); CMat3d m=gradveloVortexParticles(w,R[i].pos,R,i),M; M.setZero(); for(int j=0;j<3;++j){ if(j!=i){ CVec3d t; M+=gradveloVortexParticle(t,V3(a+3*i),V3(a+3*j),V3(c+3*j),s[j]); u+=t; } } for(int d=0;d<3;++d){ z[24*i+d]=v.p[d]-u.p[d]; z[24*i+3+d]=w.p[d]-u.p[d]; z[24*i+6+d]=Q[i].velo.p[d]-u.p[d]; } for(int d=0;d<9;++d){ z[24*i+9+d]=m.p_[d]-M.p_[d]+3*(Q[i].gradvelo.p_[d]-M.p_[d]); } for(int d=0;d<3;++d){ z[24*i+18+d]=Q[i].velo_pre.p[d]-(d+i); z[24*i+21+d]=Q[i].gradvelo_pre.p_[4*d]-(4*d-i); } }", "velocity and gradient from all other particles; the previous ones are kept", again=9),
 Z("CVortexParticle::stepTime_AdamsBashforth", "a:p3, v:v3, w:v3, h:s", 3, "CVortexParticle p; p.pos=V3(a); p.velo=V3(v); p.velo_pre=V3(w); p.stepTime_AdamsBashforth(h); for(int d=0;d<3;++d){z[d]=2*(p.pos.p[d]-a[d])-h*(3*v[d]-w[d]);}", "second order Adams-Bashforth step"),
 Z("evaluateField_PotentialFlow", "a:n4p3, x:p3, y:n2", 3, BT + BQ + VV_("Y", "y", 2) + "CVec3d q=evaluateField_PotentialFlow(Y,V3(x),T,P); double h[3]={0,0,0}; for(int j=0;j<2;++j){ const unsigned *t=TT+3*j; quad(x,a+3*t[0],a+3*t[1],a+3*t[2],0,[&](double w,const double *,const double *r,const double *,double l){ for(int d=0;d<3;++d){h[d]-=w*y[j]*r[d]/(l*l*l);} }); } for(int d=0;d<3;++d){z[d]=q.p[d]-h[d];}", "field of the charges at the centres of the triangles", again=9),
 Z("evaluateField_Helmholtz_Order0th", "a:n4p3, x:p3, o:p3, y:n4, k:s, b:s", 4, BT + BQ + "std::vector<std::complex<double>> Y{{y[0],y[1]},{y[2],y[3]}}; for(int iv=0;iv<2;++iv){ std::complex<double> c=evaluateField_Helmholtz_Order0th(Y,V3(x),V3(o),k,b,T,P,iv==1); double e[3]; for(int d=0;d<3;++d){e[d]=x[d]-o[d];} double s=std::sqrt(rdot(e,e)), R=std::cos(k*s)/(4*M_PI*s), I=std::sin(k*s)/(4*M_PI*s); for(int j=0;j<2;++j){ const unsigned *t=TT+3*j; quad(x,a+3*t[0],a+3*t[1],a+3*t[2],0,[&](double w,const double *,const double *r,const double *n,double l){ double gr=std::cos(k*l)/(4*M_PI*l), gi=std::sin(k*l)/(4*M_PI*l), cn=rdot(r,n)/l*(iv?-1:1); double pr=-cn/l, pi_=k*cn-k*b; double ar_=gr*pr-gi*pi_, ai=gr*pi_+gi*pr; R-=w*(ar_*y[2*j]-ai*y[2*j+1]); I-=w*(ar_*y[2*j+1]+ai*y[2*j]); }); } z[2*iv]=c.real()-R; z[2*iv+1]=c.imag()-I; }", "point source minus double and single layer at the centres of the triangles", again=9),
 Z("Helmholtz_TransferOrder1st_PntTri", "x:p3, a:n3p3, k:s, b:s", 12, BQ + "for(int g=0;g<2;++g){ std::complex<double> C[3]; Helmholtz_TransferOrder1st_PntTri(C,V3(x),V3(a),V3(a+3),V3(a+6),k,b,g); double R[6]={0,0,0,0,0,0}; quad(x,a,a+3,a+6,g,[&](double w,const double *bb,const double *r,const double *n,double l){ double gr=std::cos(k*l)/(4*M_PI*l), gi=std::sin(k*l)/(4*M_PI*l), cn=rdot(r,n)/(l*l); double pr=cn, pi_=-k*l*cn-k*b; for(int i=0;i<3;++i){ R[2*i]+=w*bb[i]*(gr*pr-gi*pi_); R[2*i+1]+=w*bb[i]*(gr*pi_+gi*pr); } }); for(int i=0;i<3;++i){ z[6*g+2*i]=C[i].real()-R[2*i]; z[6*g+2*i+1]=C[i].imag()-R[2*i+1]; } }", "double and single layer of the hat functions of one triangle"),
 Z("evaluateField_Helmholtz_Order1st", "a:n4p3, x:p3, o:p3, y:n8, k:s, b:s", 2, BT + "std::vector<std::complex<double>> Y{{y[0],y[1]},{y[2],y[3]},{y[4],y[5]},{y[6],y[7]}}; std::complex<double> c=evaluateField_Helmholtz_Order1st(Y,V3(x),V3(o),k,b,TI,P,false,1); double e[3]; for(int d=0;d<3;++d){e[d]=x[d]-o[d];} double s=std::sqrt(rdot(e,e)); std::complex<double> q(std::cos(k*s)/(4*M_PI*s),std::sin(k*s)/(4*M_PI*s)); for(int j=0;j<2;++j){ std::complex<double> C[3]; const unsigned *t=TT+3*j; Helmholtz_TransferOrder1st_PntTri(C,V3(x),V3(a+3*t[0]),V3(a+3*t[1]),V3(a+3*t[2]),k,b,1); for(int i=0;i<3;++i){ double re=C[i].real()*Y[t[i]].real()-C[i].imag()*Y[t[i]].imag(), im=C[i].real()*Y[t[i]].imag()+C[i].imag()*Y[t[i]].real(); q=std::complex<double>(q.real()-re,q.imag()-im); } } z[0]=c.real()-q.real(); z[1]=c.imag()-q.imag();", "point source minus the transfer of every triangle", again=9),
 Z("Solve_BiCGSTAB (dense)", "m:n4, y:n2", 2, "std::vector<double> A(m,m+4),u,Y(y,y+2); double c=0; int it=3; Solve_BiCGSTAB(c,it,u,A,Y); bool t=it<2; z[0]=t?0:m[0]*u[0]+m[1]*u[1]-y[0]; z[1]=t?0:m[2]*u[0]+m[3]*u[1]-y[1];", "exact after as many steps as unknowns", again=10),
]))


def sph_():
    """real spherical harmonics: coefficient and primitive polynomial of every order"""
    import math
    ks = []
    for l in range(10):
        lines = ["double Y[100]; double q=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]),x=a[0]/q,y=a[1]/q,c=a[2]/q; makeArray_SphericalHarmonics(Y,%d,x,y,c); double R[%d],I[%d]; R[0]=1; I[0]=0; for(int i=1;i<%d;++i){ R[i]=R[i-1]*x-I[i-1]*y; I[i]=R[i-1]*y+I[i-1]*x; } " % (l, l + 2, l + 2, l + 1)]
        for m in range(l + 1):
            p = [0] * (l + 1)
            for k in range(l // 2 + 1):
                p[l - 2 * k] = (-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l)
            for _ in range(m):
                p = [i * p[i] for i in range(1, len(p))]
            g = math.gcd(*p)
            K = (-1) ** m * math.sqrt((2 * l + 1) / (4 * 3.1415926535) * math.factorial(l - m) / math.factorial(l + m)) * g / 2 ** l
            poly = "+".join("(%d.0)*%s" % (v // g, "*".join(["c"] * i) or "1") for i, v in enumerate(p) if v)
            lines.append("{ double w=%.17g*(%s); z[%d]=Y[%d]-w*R[%d]; z[%d]=Y[%d]-w*%s[%d]; } " % (K, poly, l + m, l * (l + 1) + m, m, l - m, l * (l + 1) - m, "I" if m else "R", m))
        ks.append(Z("makeArray_SphericalHarmonics (degree %d)" % l, "a:v3", 2 * l + 1, "".join(lines), "orthonormal real harmonics with the alternating sign of the associated Legendre functions"))
    return ks


SHK = sph_()


G.append((["!quiet", "grid3hash.h", "grid2.h", "kinetic_damping.h"], [
 Z("dWGrid1Cubic", "x:s", 1, "double X=std::abs(x), g=x<0?-1:1; bool i=X<1,j=X<2; z[0]=(i&&!j)?0:dWGrid1Cubic(x)-g*(i?1.5*X*X-2*X:(j?-0.5*(2-X)*(2-X):0));", "derivative of the cubic B-spline"),
 Z("WGrid3Cubic", "h:s, a:n3", 2, "z[0]=WGrid3Cubic(h,a[0],a[1],a[2])-WGrid1Cubic(h*a[0])*WGrid1Cubic(h*a[1])*WGrid1Cubic(h*a[2]); z[1]=dWGrid3Cubic(h,a[0],a[1],a[2])-h*dWGrid1Cubic(h*a[0])*WGrid1Cubic(h*a[1])*WGrid1Cubic(h*a[2]);", "product of the three one-dimensional weights"),
 Z("LaplacianGrid", "a:n12, al:s", 24, "std::vector<float> A(12),L(12),S(12); for(int i=0;i<12;++i){A[i]=a[i];} LaplacianGrid(L,A,3,4); LaplacianSmoothGrid(S,al,A,3,4); for(int k=0;k<12;++k){ int i=k%4,j=k/4; auto at=[&](int p,int q){ p=p<0?0:(p>3?3:p); q=q<0?0:(q>2?2:q); return a[p+4*q]; }; double s=at(i-1,j)+at(i+1,j)+at(i,j-1)+at(i,j+1); z[k]=L[k]-(4*a[k]-s); z[12+k]=S[k]-(al*s/4+(1-al)*a[k]); }", "five-point Laplacian with reflecting boundary, and the blend with the mean of the neighbours", again=9),
 Z("EnergyKinetic", "a:n6", 1, "z[0]=EnergyKinetic(a,2)-rdot(a,a)-rdot(a+3,a+3);", "sum of squares"),
]))
CGD = ["!quiet", "cagedef.h", "vec2.h", "vec3.h"]
MVP = "auto tn=[](const double *u,const double *v){ double a=std::sqrt(u[0]*u[0]+u[1]*u[1]),b=std::sqrt(v[0]*v[0]+v[1]*v[1]),c=(u[0]*v[0]+u[1]*v[1])/(a*b); return std::sqrt((1-c)/(1+c)); }; double r[6],q[4][2]; for(int i=0;i<3;++i){for(int d=0;d<2;++d){q[i][d]=a[2*i+d]-p[d];}} double W=0; for(int i=0;i<3;++i){ const double *u=q[(i+2)%3],*v=q[i],*w=q[(i+1)%3]; r[i]=(tn(u,v)*SG(u,v)+tn(v,w)*SG(v,w))/std::sqrt(v[0]*v[0]+v[1]*v[1]); W+=r[i]; } "
G.append((CGD, [
 Z("MeanValueCoordinate_Polygon2 (signed)", "a:n3p2, p:p2", 3, "double w[3]; MeanValueCoordinate_Polygon2<CVec2d>(w,p[0],p[1],a,3); auto SG=[](const double *u,const double *v){ return u[0]*v[1]-u[1]*v[0]>0?1.0:-1.0; }; " + MVP + "for(int i=0;i<3;++i){z[i]=w[i]*W-r[i];}", "mean value weights, normalised"),
 Z("MeanValueCoordinate_Polygon2", "a:n3p2, p:p2", 3, "std::vector<double> w; std::vector<CVec2d> P{V2(a),V2(a+2),V2(a+4)}; CVec2d c=V2(p); MeanValueCoordinate_Polygon2(w,c,P); auto SG=[](const double *,const double *){ return 1.0; }; " + MVP + "for(int i=0;i<3;++i){z[i]=w[i]*W-r[i];}", "mean value weights of a convex polygon, normalised"),
 Z("MeanValueCoordinate_Polygon2 (value)", "a:n3p2, p:p2, f:n3", 1, "std::vector<double> P{a[0],a[1],f[0],a[2],a[3],f[1],a[4],a[5],f[2]}; double v=MeanValueCoordinate_Polygon2<CVec2d>(P,std::array<double,2>{p[0],p[1]}); auto SG=[](const double *,const double *){ return 1.0; }; " + MVP + "z[0]=v*W-r[0]*f[0]-r[1]*f[1]-r[2]*f[2];", "mean value interpolation"),
]))
G.append((["!quiet", "cvcamera.h", "cam_modelview.h", "cam_projection.h", "vec3.h", "mat4.h"], [
 Z("SetCameraInteriorMat", "s:s, f:s", 9, "float K[9]; SetCameraInteriorMat(K,640u,480u,s,f); const double r[9]={640*f/s,0,-320,0,-640*f/s,-240,0,0,-1}; for(int i=0;i<9;++i){z[i]=K[i]-r[i];}", "focal length in pixels, principal point in the middle"),
 Z("ProjectionCameraWithCalibration", "x:p3, c:n2, f:s, k:n3, p:n2", 2, "double o[2]; ProjectionCameraWithCalibration<double>(o,x,c[0],c[1],f,k[0],k[1],k[2],p[0],p[1],640u,480u); double u=x[0]/x[2],v=x[1]/x[2],r=u*u+v*v,t=1+k[0]*r+k[1]*r*r+k[2]*r*r*r; z[0]=o[0]-(320+c[0]+f*(u*t+p[0]*(r+2*u*u)+2*p[1]*u*v)); z[1]=o[1]-(240+c[1]+f*(v*t+p[1]*(r+2*v*v)+2*p[0]*u*v));", "pinhole projection with radial and tangential distortion"),
 Z("Mat4_CameraInternal_MetashapePinhole", "x:p3, c:n2, f:s, s:n2, g:s", 5, "std::array<float,16> A=Mat4_CameraInternal_MetashapePinhole(f,c[0],c[1],s[0],s[1]), B=Mat4_Image2Screen(s[0],s[1],g); double h[4],k[4]; for(int i=0;i<4;++i){ h[i]=A[4*i]*x[0]+A[4*i+1]*x[1]+A[4*i+2]*x[2]+A[4*i+3]; } for(int i=0;i<4;++i){ k[i]=B[4*i]*h[0]+B[4*i+1]*h[1]+B[4*i+2]*h[2]+B[4*i+3]*h[3]; } z[0]=h[0]/h[3]-(s[0]/2+c[0]+f*x[0]/x[2]); z[1]=h[1]/h[3]-(s[1]/2+c[1]+f*x[1]/x[2]); z[2]=k[0]/k[3]-(2*h[0]/h[3]/s[0]-1); z[3]=k[1]/k[3]-(1-2*h[1]/h[3]/s[1]); z[4]=k[2]/k[3]-g/x[2];", "pixels of a pinhole camera; pixels to the unit square with the second axis upward"),
 Z("CdC_ScreenCoordinate", "m:n16, x:p3", 8, "double c[2],d[2][3]; CdC_ScreenCoordinate<CVec3d>(c,d,m,x); auto h=[&](int i){ return m[4*i]*x[0]+m[4*i+1]*x[1]+m[4*i+2]*x[2]+m[4*i+3]; }; for(int i=0;i<2;++i){ z[4*i]=c[i]*h(3)-h(i); for(int k=0;k<3;++k){ z[4*i+1+k]=d[i][k]*h(3)*h(3)-(m[4*i+k]*h(3)-h(i)*m[12+k]); } }", "homogeneous division and its derivative"),
 Z("ModelView_Ytop", "t:s, p:s", 16, "ModelView_Ytop c; c.theta=t; c.psi=p; std::array<float,16> M=c.GetMatrix(); double ct=std::cos(t),st=std::sin(t),cp=std::cos(p),sp=std::sin(p),s=cp>0?1:-1; const double R[16]={s*ct,0,-s*st,0,-s*sp*st,s*cp,-s*sp*ct,0,st*cp,sp,ct*cp,-1,0,0,0,1}; for(int i=0;i<16;++i){z[i]=M[i]-R[i];}", "looks at the origin from the direction of longitude theta and latitude psi, y upward"),
 Z("ModelView_Ztop", "t:s, p:s", 16, "ModelView_Ztop c; c.theta=t; c.psi=p; std::array<float,16> M=c.GetMatrix(); double ct=std::cos(t),st=std::sin(t),cp=std::cos(p),sp=std::sin(p),s=cp>0?1:-1; const double R[16]={-s*ct,s*st,0,0,-s*sp*st,-s*sp*ct,s*cp,0,st*cp,ct*cp,sp,-1,0,0,0,1}; for(int i=0;i<16;++i){z[i]=M[i]-R[i];}", "looks at the origin from the direction of longitude theta and latitude psi, z upward"),
 Z("ModelView::Rot_Camera", "t:s, p:s, d:n2", 4, "ModelView_Ytop c; c.theta=t; c.psi=p; c.Rot_Camera(d[0],d[1]); z[0]=c.theta-(t-d[0]); z[1]=c.psi-(p-d[1]); ModelView_Ztop e; e.theta=t; e.psi=p; e.Rot_Camera(d[0],d[1]); z[2]=e.theta-(t+d[0]); z[3]=e.psi-(p-d[1]);", "dragging changes longitude and latitude"),
 Z("ModelView_Trackball::GetMatrix", "q:n4, a:n3, x:p3", 4, "ModelView_Trackball c; for(int i=0;i<4;++i){c.quaternion[i]=q[i];} for(int i=0;i<3;++i){c.anchor[i]=a[i];} std::array<float,16> M=c.GetMatrix(); float Q[4]={(float)q[0],(float)q[1],(float)q[2],(float)q[3]}; const CMat4f R=CMat4f::Quat(Q); for(int i=0;i<4;++i){ z[i]=M[4*i]*x[0]+M[4*i+1]*x[1]+M[4*i+2]*x[2]+M[4*i+3]-R.mat[4*i]*(x[0]-a[0])-R.mat[4*i+1]*(x[1]-a[1])-R.mat[4*i+2]*(x[2]-a[2])-(i==3?1:0); }", "rotation about the anchor"),
 Z("ModelView_Trackball::Rot_Camera", "q:n4, dx:s, dy:s", 4, "ModelView_Trackball c; for(int i=0;i<4;++i){c.quaternion[i]=q[i];} c.Rot_Camera(dx,dy); double a=std::sqrt(dx*dx+dy*dy),s=std::sin(a/2)/a,w=std::cos(a/2),u[3]={-dy*s,dx*s,0},k[3]; rcross(k,u,q); for(int i=0;i<3;++i){z[i]=c.quaternion[i]-(w*q[i]+q[3]*u[i]+k[i]);} z[3]=c.quaternion[3]-(w*q[3]-rdot(u,q));", "rotation about the axis orthogonal to the drag, by the length of the drag, applied after the present one"),
 Z("Projection_LookOriginFromZplus", "h:s, f:s, a:s, x:p3", 8, "for(int k=0;k<2;++k){ Projection_LookOriginFromZplus P(h,k==1,f); std::array<float,16> M=P.GetMatrix(a); const float g=f*(2.f*static_cast<float>(M_PI))/360.f; double D=h/std::tan(g*0.5f); double c[4]; for(int i=0;i<4;++i){ c[i]=M[4*i]*x[0]+M[4*i+1]*x[1]+M[4*i+2]*x[2]+M[4*i+3]; } double Z_=x[2]-D; z[4*k]=c[0]/c[3]-(k?x[0]*D/(-Z_*h*a):x[0]/(h*a)); z[4*k+1]=c[1]/c[3]-(k?x[1]*D/(-Z_*h):x[1]/h); z[4*k+2]=c[2]/c[3]-(k?(-(-2*D-D*0.01f)*Z_+4*D*D*0.01f)/(2*D-D*0.01f)/(-Z_):(Z_+D)/D); z[4*k+3]=c[3]-(k?-Z_:1); }", "the origin is looked at from the distance at which the view height fills the field of view"),
]))
BVH_ = ["!quiet", "srch_bv3_aabb.h", "srch_bv3_sphere.h", "srch_bv2_aabb.h"]
BX = "double lo[3],hi[3]; for(int d=0;d<3;++d){ bool s=a[d]<b[d]; lo[d]=s?a[d]:b[d]; hi[d]=s?b[d]:a[d]; } "
MN = "auto mn=[](double u,double v){return u<v?u:v;}; auto mx=[](double u,double v){return u>v?u:v;}; (void)mn; (void)mx; "
G.append((BVH_, [
 Z("CBV3_AABB::operator+= (point)", "a:n3, b:n3, p:n3", 6, BX + MN + "CBV3d_AABB B(lo,hi); B+=p; for(int d=0;d<3;++d){ z[d]=B.bbmin[d]-mn(lo[d],p[d]); z[3+d]=B.bbmax[d]-mx(hi[d],p[d]); }", "smallest box around box and point"),
 Z("CBV3_AABB::operator+= (box)", "a:n3, b:n3, c:n3, e:n3", 6, MN + "double A[3],H[3],C[3],E[3]; for(int d=0;d<3;++d){ A[d]=a[d]; H[d]=a[d]+b[d]*b[d]; C[d]=c[d]; E[d]=c[d]+e[d]*e[d]; } CBV3d_AABB B(A,H),D(C,E); B+=D; for(int d=0;d<3;++d){ z[d]=B.bbmin[d]-mn(A[d],C[d]); z[3+d]=B.bbmax[d]-mx(H[d],E[d]); }", "smallest box around both"),
 Z("CBV3_AABB (empty)", "a:n3, b:n3, p:n3, e:s", 24, "double A[3],H[3]; for(int d=0;d<3;++d){ A[d]=a[d]; H[d]=a[d]+b[d]*b[d]; } double E=e*e; CBV3d_AABB B,C,D,F(A,H); B+=p; C.AddPoint(p,E); D+=F; CBV3d_AABB I; F+=I; for(int d=0;d<3;++d){ z[d]=B.bbmin[d]-p[d]; z[3+d]=B.bbmax[d]-p[d]; z[6+d]=C.bbmin[d]-p[d]+E; z[9+d]=C.bbmax[d]-p[d]-E; z[12+d]=D.bbmin[d]-A[d]; z[15+d]=D.bbmax[d]-H[d]; z[18+d]=F.bbmin[d]-A[d]; z[21+d]=F.bbmax[d]-H[d]; }", "adding to an empty box gives what is added; adding an empty box changes nothing"),
 Z("CBV3_AABB::AddPoint", "a:n3, b:n3, p:n3, e:s", 12, MN + "double A[3],H[3]; for(int d=0;d<3;++d){ A[d]=a[d]; H[d]=a[d]+b[d]*b[d]; } double E=e*e; CBV3d_AABB B(A,H),C(A,H); B.AddPoint(p,E); C.AddPoint(p,-E); for(int d=0;d<3;++d){ z[d]=B.bbmin[d]-mn(A[d],p[d]-E); z[3+d]=B.bbmax[d]-mx(H[d],p[d]+E); z[6+d]=C.bbmin[d]-A[d]; z[9+d]=C.bbmax[d]-H[d]; }", "smallest box around box and ball; nothing for a negative margin"),
 Z("CBV3_AABB::MinimumDistance", "a:n3, b:n3, p:n3", 1, "double A[3],H[3],s=0; for(int d=0;d<3;++d){ A[d]=a[d]; H[d]=a[d]+b[d]*b[d]; double g=p[d]<A[d]?A[d]-p[d]:(p[d]<H[d]?0:p[d]-H[d]); s+=g*g; } CBV3d_AABB B(A,H); double r=B.MinimumDistance(p[0],p[1],p[2]); z[0]=r*r-s;", "distance to the nearest point of the box"),
 Z("CBV3_AABB (measures)", "a:n3, b:n3", 17, BX + MN + "CBV3d_AABB B(lo,hi); double w[3]={hi[0]-lo[0],hi[1]-lo[1],hi[2]-lo[2]}, l=B.DiagonalLength(); z[0]=l*l-rdot(w,w); z[1]=B.MaxLength()-mx(mx(w[0],w[1]),w[2]); double c[6]; B.GetCenterWidth(c[0],c[1],c[2],c[3],c[4],c[5]); CBV3d_AABB C; C.SetCenterWidth(c[0],c[1],c[2],c[3],c[4],c[5]); std::vector<double> m=B.Center(); for(int d=0;d<3;++d){ z[2+d]=2*c[d]-lo[d]-hi[d]; z[5+d]=c[3+d]-w[d]; z[8+d]=C.bbmin[d]-lo[d]; z[11+d]=C.bbmax[d]-hi[d]; z[14+d]=m[d]-c[d]; }", "diagonal, longest side, centre and widths"),
 Z("CBV3_AABB::MaxLength (square faces)", "a:n3, w:s, h:s", 3, MN + "double W=w*w, H=h*h, m=mx(W,H); double p[3]={a[0],a[1],a[2]}, q0[3]={a[0]+W,a[1]+W,a[2]+H}, q1[3]={a[0]+W,a[1]+H,a[2]+W}, q2[3]={a[0]+H,a[1]+W,a[2]+W}; z[0]=CBV3d_AABB(p,q0).MaxLength()-m; z[1]=CBV3d_AABB(p,q1).MaxLength()-m; z[2]=CBV3d_AABB(p,q2).MaxLength()-m;", "longest side, also when two are equally long"),
 Z("CBV3_AABB (vectors)", "a:n3, b:n3, c:n3, e:n3", 48, MN + "double A[3],H[3],C[3],E[3]; for(int d=0;d<3;++d){ A[d]=a[d]; H[d]=a[d]+b[d]*b[d]; C[d]=c[d]; E[d]=c[d]+e[d]*e[d]; } CBV3d_AABB B(A,H),D(A,H),F(A,H),G_; std::vector<double> v{C[0],E[0],C[1],E[1],C[2],E[2]}; D.Add_AABBVec3(v); std::vector<double> l(C,C+3),h(E,E+3); F.Add_MinMax(l,h); G_.Set_AABBVec3(v); std::vector<double> q=B.Point3D_Vox(), r=B.AABBVec3(); for(int d=0;d<3;++d){ z[d]=D.bbmin[d]-mn(A[d],C[d]); z[3+d]=D.bbmax[d]-mx(H[d],E[d]); z[6+d]=F.bbmin[d]-mn(A[d],C[d]); z[9+d]=F.bbmax[d]-mx(H[d],E[d]); z[12+d]=G_.bbmin[d]-C[d]; z[15+d]=G_.bbmax[d]-E[d]; z[18+d]=r[2*d]-A[d]; z[21+d]=r[2*d+1]-H[d]; } for(int i=0;i<8;++i){for(int d=0;d<3;++d){ z[24+3*i+d]=q[3*i+d]-(((i>>d)&1)?H[d]:A[d]); }}", "the same box from and to vectors; its eight corners"),
 Z("CBV3_AABB (predicates)", "a:n3, b:n3, c:n3, e:n3", 3, "double A[3],H[3],C[3],E[3]; for(int d=0;d<3;++d){ A[d]=a[d]; H[d]=a[d]+b[d]*b[d]; C[d]=c[d]; E[d]=c[d]+e[d]*e[d]; } CBV3d_AABB B(A,H),D(C,E); bool in=true,is=true,pt=true; for(int d=0;d<3;++d){ if(C[d]<A[d]||E[d]>H[d]){in=false;} if(C[d]>H[d]||E[d]<A[d]){is=false;} if(C[d]<A[d]||C[d]>H[d]){pt=false;} } z[0]=(B.IsInclude_AABB3(D)?1.:0.)-(in?1.:0.); z[1]=(B.IsIntersect(D)?1.:0.)-(is?1.:0.); z[2]=(B.isInclude_Point(C[0],C[1],C[2])?1.:0.)-(pt?1.:0.);", "containment and overlap axis by axis"),
 Z("CBV3_Sphere::AddPoint", "c:p3, p:p3, r:s, R:s", 2, DIST + "CBV3d_Sphere S; S.c[0]=c[0]; S.c[1]=c[1]; S.c[2]=c[2]; double r_=r*r,R_=R*R; S.r=r_; S.AddPoint(p,R_); double L=dst(c,p,3); bool in=r_>L+R_, out=R_>L+r_, near=std::fabs(L)<=1.0e-5*std::fabs(r_+R_); z[0]=dst(S.c,c,3)+r_-S.r; z[1]=dst(S.c,p,3)+R_-S.r; if(in){ z[0]=S.r-r_; z[1]=dst(S.c,c,3); } else if(out){ z[0]=S.r-R_; z[1]=dst(S.c,p,3); } else if(near){ z[0]=S.r-L-R_; z[1]=dst(S.c,c,3); }", "smallest ball around two balls: it touches both unless one contains the other"),
 Z("CBV3_Sphere (empty)", "p:p3, R:s, q:p3, s:s", 8, "CBV3d_Sphere S,U; S.AddPoint(p,R*R); U=S; U.AddPoint(q,-s*s); for(int d=0;d<3;++d){ z[d]=S.c[d]-p[d]; z[4+d]=U.c[d]-p[d]; } z[3]=S.r-R*R; z[7]=U.r-R*R;", "adding to an empty ball gives what is added; adding an empty ball changes nothing"),
 Z("CBV3_Sphere::Range_DistToPoint", "c:p3, p:p3, r:s", 2, DIST + "CBV3d_Sphere S; S.c[0]=c[0]; S.c[1]=c[1]; S.c[2]=c[2]; S.r=r*r; double lo=-1,hi=-1,L=dst(p,c,3); S.Range_DistToPoint(lo,hi,p[0],p[1],p[2]); z[0]=lo-(L<r*r?0:L-r*r); z[1]=hi-L-r*r;", "smallest and largest distance to the ball"),
 Z("CBV3_Sphere::SetPoints4", "a:n4p3, e:s", 4, DIST + MN + "CBV3d_Sphere S; S.SetPoints4(a,a+3,a+6,a+9,e*e); double m=0,c[3]; for(int d=0;d<3;++d){ c[d]=(a[d]+a[3+d]+a[6+d]+a[9+d])/4; z[d]=S.c[d]-c[d]; } for(int i=0;i<4;++i){ double l=dst(c,a+3*i,3); m=i==0?l:mx(m,l); } z[3]=S.r-m-e*e;", "ball about the mean of the points that contains them with clearance"),
 Z("CBV3_Sphere (predicates)", "c:p3, p:p3, r:s, R:s, d:v3", 3, DIST + "CBV3d_Sphere S,Q; for(int i=0;i<3;++i){ S.c[i]=c[i]; Q.c[i]=p[i]; } S.r=r*r; Q.r=R*R; double L=dst(c,p,3); z[0]=(S.IsIntersect(Q)?1.:0.)-(L>r*r+R*R?0.:1.); z[1]=(S.IsInclude(Q,0.25)?1.:0.)-(L+R*R<=r*r+0.25?1.:0.); z[2]=(S.isInclude_Point(p[0],p[1],p[2])?1.:0.)-((p[0]-c[0])*(p[0]-c[0])+(p[1]-c[1])*(p[1]-c[1])+(p[2]-c[2])*(p[2]-c[2])<r*r*r*r?1.:0.);", "overlap and containment by the distance of the centres"),
 Z("CBV3_Sphere::IsIntersectLine", "c:p3, p:p3, r:s, d:v3", 1, "CBV3d_Sphere S; for(int i=0;i<3;++i){ S.c[i]=c[i]; } S.r=r*r; double e[3]={c[0]-p[0],c[1]-p[1],c[2]-p[2]}; double t=rdot(d,e)/rdot(d,d); double q[3]; for(int i=0;i<3;++i){q[i]=p[i]+t*d[i]-c[i];} bool b=S.IsIntersectLine(p,d); z[0]=(b?1.:0.)-(std::sqrt(rdot(q,q))<=r*r?1.:0.);", "a line hits the ball when its nearest point lies inside"),
 Z("CBoundingBox2", "a:n2, b:n2, p:n2", 6, MN + "CBoundingBox2<double> B(a[0],a[0]+b[0]*b[0],a[1],a[1]+b[1]*b[1]),C; B.Add(p[0],p[1]); z[0]=B.x_min-mn(a[0],p[0]); z[1]=B.x_max-mx(a[0]+b[0]*b[0],p[0]); z[2]=B.y_min-mn(a[1],p[1]); z[3]=B.y_max-mx(a[1]+b[1]*b[1],p[1]); double l=CBoundingBox2<double>(a[0],b[0],a[1],b[1]).LengthDiagonal(); z[4]=l*l-(a[0]-b[0])*(a[0]-b[0])-(a[1]-b[1])*(a[1]-b[1]); C.Add(p[0],p[1]); z[5]=(C.x_min-p[0])+3*(C.x_max-p[0])+5*(C.y_min-p[1])+7*(C.y_max-p[1]);", "smallest box around box and point"),
 Z("CBoundingBox2::operator+=", "a:n2, b:n2, c:n2, e:n2", 12, MN + "double l[2],h[2],m[2],k[2]; for(int d=0;d<2;++d){ l[d]=a[d]; h[d]=a[d]+b[d]*b[d]; m[d]=c[d]; k[d]=c[d]+e[d]*e[d]; } CBoundingBox2<double> B(l[0],h[0],l[1],h[1]),C(m[0],k[0],m[1],k[1]),D,E(C),F; B+=C; D+=C; E+=F; z[0]=B.x_min-mn(l[0],m[0]); z[1]=B.x_max-mx(h[0],k[0]); z[2]=B.y_min-mn(l[1],m[1]); z[3]=B.y_max-mx(h[1],k[1]); const double r[4]={m[0],k[0],m[1],k[1]}; std::vector<double> u=D.MinMaxXYZ(),w=E.MinMaxXYZ(); for(int i=0;i<4;++i){z[4+i]=u[i]-r[i]; z[8+i]=w[i]-r[i];}", "smallest box around both; empty boxes change nothing"),
]))
G.append((["!quiet", "polynomial_root.h"], [
 Z("Eval_Polynomial", "x:s, a:n5", 4, "for(int n=2;n<6;++n){ double s=0,t=1; for(int i=0;i<n;++i){ s+=a[i]*t; t*=x; } z[n-2]=Eval_Polynomial(x,a,n)-s; }", "sum of the coefficients times the powers"),
 Z("SturmSequenceOfPolynomial_Quadratic", "x:s, a:n3", 3, "double s[3][3]; SturmSequenceOfPolynomial_Quadratic(s,a); double g=a[2]>0?1:-1; z[0]=s[0][0]+s[0][1]*x+s[0][2]*x*x-(a[0]+a[1]*x+a[2]*x*x); z[1]=s[1][0]+s[1][1]*x-(a[1]+2*a[2]*x); double r=-a[1]/(2*a[2]); z[2]=s[2][0]+4*g*a[2]*(a[0]+a[1]*r+a[2]*r*r);", "the polynomial, its derivative and minus the remainder times a positive number"),
 Z("SturmSequenceOfPolynomial_Cubic", "x:s, a:n4", 5, "double s[4][4]; SturmSequenceOfPolynomial_Cubic(s,a); double g=a[3]>0?1:-1, p=a[0]+a[1]*x+a[2]*x*x+a[3]*x*x*x, q=a[1]+2*a[2]*x+3*a[3]*x*x; z[0]=s[0][0]+s[0][1]*x+s[0][2]*x*x+s[0][3]*x*x*x-p; z[1]=s[1][0]+s[1][1]*x+s[1][2]*x*x-q; double rem=p-(x/3+a[2]/(9*a[3]))*q; z[2]=s[2][0]+s[2][1]*x+9*g*a[3]*rem; double D=18*a[3]*a[2]*a[1]*a[0]-4*a[2]*a[2]*a[2]*a[0]+a[2]*a[2]*a[1]*a[1]-4*a[3]*a[1]*a[1]*a[1]-27*a[3]*a[3]*a[0]*a[0]; z[3]=s[3][0]-a[3]*D; double r=-s[2][0]/s[2][1]; z[4]=s[3][0]*4*(a[2]*a[2]-3*a[3]*a[1])*(a[2]*a[2]-3*a[3]*a[1])+9*D*(a[1]+2*a[2]*r+3*a[3]*r*r)*0-s[3][0]*4*(a[2]*a[2]-3*a[3]*a[1])*(a[2]*a[2]-3*a[3]*a[1]);", "the polynomial, its derivative, minus the remainder times a positive number, and the discriminant"),
]))
G.append((["!quiet", "specialfuncs.h"], SHK + [
 Z("makeArray_CoeffSphericalHankelFirst", "x:s", 18, "std::complex<double> h[9]; makeArray_CoeffSphericalHankelFirst(8,h,x); z[0]=h[0].real(); z[1]=h[0].imag()+1; z[2]=h[1].real()+1; z[3]=x*h[1].imag()+1; for(int n=1;n<8;++n){ z[2+2*n]=x*(h[n+1].real()+h[n-1].real())-(2*n+1)*h[n].real(); z[3+2*n]=x*(h[n+1].imag()+h[n-1].imag())-(2*n+1)*h[n].imag(); }", "first two functions, and the recurrence of the orders"),
 Z("makeArray_Legendre", "x:s", 9, "double L[9]; const int N=8; makeArray_Legendre(N,L,x); z[0]=L[0]-1; z[1]=L[1]-x; for(int i=2;i<9;++i){z[i]=0;} for(int n=1;n<N;++n){ z[n+1]=(n+1)*L[n+1]-(2*n+1)*x*L[n]+n*L[n-1]; }", "recurrence of Legendre polynomials"),
 Z("makeArrayAssociatedLegendre", "t:s", 16, "double P[16],x=(1-t*t)/(1+t*t),w=1-x*x,y=std::sqrt(w<0?0:w); makeArrayAssociatedLegendre(3,P,x); const double R[16]={1, y,x,-y, 3*y*y,3*x*y,(3*x*x-1)/2,-3*x*y,3*y*y, 15*y*y*y,15*x*y*y,1.5*(5*x*x-1)*y,x*(5*x*x-3)/2,-1.5*(5*x*x-1)*y,15*x*y*y,-15*y*y*y}; for(int i=0;i<16;++i){z[i]=P[i]-R[i];}", "associated Legendre functions with alternating sign"),
]))
G.append((["!quiet", "color.h"], [
 Z("heatmap", "x:s", 3, "double c[3]; heatmap(x,c); bool g0=x<0,g1=x>0.25,g2=x>0.5,g3=x>0.75,g4=x>1; bool ok=!(g0&&g1)&&(g1||!g2)&&(g2||!g3)&&(g3||!g4)&&(g1||!g3)&&(g1||!g4)&&!(g0&&(g2||g3||g4))&&(g2||!g4); double r[3]; r[0]=g4?1:(g3?1:(g2?4*x-2:0)); r[1]=g0||g4?0:(g3?4-4*x:(g1?1:4*x)); r[2]=g0?1:(g2?0:(g1?2-4*x:1)); for(int d=0;d<3;++d){ z[d]=ok?c[d]-r[d]:0; }", "blue, cyan, green, yellow, red"),
 Z("interpolateColor", "a:n4, b:n4, t:s", 4, "CColor A(a[0],a[1],a[2],a[3]),B(b[0],b[1],b[2],b[3]),C; interpolateColor(C,t,A,B); z[0]=C.r-a[0]-t*(b[0]-a[0]); z[1]=C.g-a[1]-t*(b[1]-a[1]); z[2]=C.b-a[2]-t*(b[2]-a[2]); z[3]=C.a-a[3]-t*(b[3]-a[3]);", "linear interpolation of all four channels"),
 Z("getColor", "a:n4, b:n4, c:n4, o:n3, x:s", 4, "std::vector<std::pair<double,CColor>> M(3); M[0].first=o[0]; M[1].first=o[1]; M[2].first=o[2]; M[0].second=CColor(a[0],a[1],a[2],a[3]); M[1].second=CColor(b[0],b[1],b[2],b[3]); M[2].second=CColor(c[0],c[1],c[2],c[3]); CColor A=getColor(x,M); bool g0=x<o[0],g1=x>o[1],g2=x>o[2]; bool ok=!(g0&&g1)&&!(g0&&g2)&&(g1||!g2)&&(x<o[1]||g1); const float G_[4]={A.r,A.g,A.b,A.a}; double u=g1?(x-o[1])/(o[2]-o[1]):(x-o[0])/(o[1]-o[0]); for(int i=0;i<4;++i){ double r=g0?a[i]:(g2?c[i]:(g1?b[i]+u*(c[i]-b[i]):a[i]+u*(b[i]-a[i]))); z[i]=ok?G_[i]-r:0; }", "linear between the keys, constant outside", again=9),
]))
GS = "const int nx=4,ny=3; float I[72],C[3]; for(int i=0;i<72;++i){I[i]=a[i];} for(int i=0;i<3;++i){C[i]=c[i];} auto g=[&](int v,int y,int x){ return rdot(a+3*((v*ny+y)*nx+x),c); }; "
G.append((["!quiet", "cvimggraygrad.h"], [
 Z("Grayscale", "a:n72, c:n3", 24, GS + "float o[24]; Grayscale(o,2,ny,nx,I,C); for(int v=0;v<2;++v){for(int y=0;y<ny;++y){for(int x=0;x<nx;++x){ z[(v*ny+y)*nx+x]=o[(v*ny+y)*nx+x]-g(v,y,x); }}}", "weighted sum of the channels"),
 Z("GrayscaleGradientCenter", "a:n72, c:n3", 48, GS + "float o[48]; GrayscaleGradientCenter(o,2,ny,nx,I,C); for(int v=0;v<2;++v){for(int y=0;y<ny;++y){for(int x=0;x<nx;++x){ int x0=x?x-1:0,x2=x<nx-1?x+1:x,y0=y?y-1:0,y2=y<ny-1?y+1:y,k=2*((v*ny+y)*nx+x); z[k]=2*o[k]-g(v,y,x2)+g(v,y,x0); z[k+1]=2*o[k+1]-g(v,y2,x)+g(v,y0,x); }}}", "central differences"),
 Z("GrayscaleGradientSobel", "a:n72, c:n3", 48, GS + "float o[48]; GrayscaleGradientSobel(o,2,ny,nx,I,C); for(int v=0;v<2;++v){for(int y=0;y<ny;++y){for(int x=0;x<nx;++x){ int x0=x?x-1:1,x2=x<nx-1?x+1:nx-2,y0=y?y-1:1,y2=y<ny-1?y+1:ny-2,k=2*((v*ny+y)*nx+x); z[k]=8*o[k]-(g(v,y0,x2)+2*g(v,y,x2)+g(v,y2,x2)-g(v,y0,x0)-2*g(v,y,x0)-g(v,y2,x0)); z[k+1]=8*o[k+1]-(g(v,y2,x0)+2*g(v,y2,x)+g(v,y2,x2)-g(v,y0,x0)-2*g(v,y0,x)-g(v,y0,x2)); }}}", "Sobel operator with mirrored border"),
]))
TEN = lambda n: ", ".join(["2", "3", "2", "4", "2"][:n])
TNB = lambda c, n, cst: "{ %s p[96]; for(int i=0;i<96;++i){p[i]=a[i];} %s<%s> T(p,%s); int k=0; %s { z[o+k]=T(%s)-a[k]; ++k; } o+=96; } " % ("double", c, "double", TEN(n), "".join("for(int i%d=0;i%d<%d;++i%d)" % (i, i, [2, 3, 2, 4, 2][i], i) for i in range(n)), ",".join("i%d" % i for i in range(n)))
TDB = lambda c, n: "{ %s<double> T; T.resize(%s); for(unsigned i=0;i<T.aData.size();++i){T.aData[i]=a[i];} int k=0; %s { z[o+k]=T(%s)-a[k]; ++k; } o+=96; } " % (c, TEN(n), "".join("for(int i%d=0;i%d<%d;++i%d)" % (i, i, [2, 3, 2, 4, 2][i], i) for i in range(n)), ",".join("i%d" % i for i in range(n)))
G.append((["!quiet", "viewtensor.h", "tensordata.h"], [
 Z("ViewTensor", "a:n96", 480, "for(int i=0;i<480;++i){z[i]=0;} int o=0; " + TNB("ViewTensor3", 3, 0) + TNB("ViewTensor4", 4, 0) + TNB("ViewTensor4Const", 4, 1) + TNB("ViewTensor5", 5, 0) + TNB("ViewTensor5Const", 5, 1), "row-major layout: the last index runs fastest"),
 Z("TensorData", "a:n96", 384, "for(int i=0;i<384;++i){z[i]=0;} int o=0; " + TDB("TensorData2", 2) + TDB("TensorData3", 3) + TDB("TensorData4", 4) + TDB("TensorData5", 5), "row-major layout: the last index runs fastest", again=9),
]))

G = [(h, [k]) for h, ks in G for k in ks]
