# Kernels analysed by grade inference: the declared grade of every parameter and result.
# params: name:type, '>' output, '<>' in-out, '>+' accumulated into.  type: see checks/kern.py (Ty): index kinds, then the unit.
K = lambda *a, **k: Kernel(*a, **k)
GROUPS = []
# ------------------------------------------------------------------ vectors
GROUPS.append((["vec2.h"], [
 K("Dot2", "a:v2 L, b:v2 M", "  return Dot2(a,b);", ret="s L M"),
 K("SquareLength2", "a:v2 L", "  return SquareLength2(a);", ret="s L2"),
 K("SquareDistance2", "a:p2 L, b:p2 L", "  return SquareDistance2(a,b);", ret="s L2"),
 K("Normalize2", "a:v2 L, >o:v2", "  double x[2]={a[0],a[1]}; Normalize2(x); put2(o,x);"),
 K("Area_Tri2(ptr)", "a:p2 L, b:p2 L, c:p2 L", "  return Area_Tri2(a,b,c);", ret="x2 L2"),
 K("Cross2", "a:v2 L, b:v2 M", "  return Cross2(V2(a),V2(b));", ret="x2 L M"),
 K("CVec2::norm", "a:v2 L", "  return V2(a).norm();", ret="s L"),
 K("CVec2::squaredNorm", "a:v2 L", "  return V2(a).squaredNorm();", ret="s L2"),
 K("CVec2::normalized", "a:v2 L, >o:v2", "  put2(o, V2(a).normalized());"),
 K("CVec2::dot", "a:v2 L, b:v2 M", "  return V2(a).dot(V2(b));", ret="s L M"),
 K("CVec2::Rotate", "a:v2 L, t:x2, >o:v2 L", "  put2(o, V2(a).Rotate(t));"),
 K("CVec2::operator+-", "a:p2 L, b:v2 L, c:v2 L, >o:p2 L", "  put2(o, V2(a)+V2(b)-V2(c));"),
 K("CVec2::operator*/", "a:v2 L, s:s M, t:s A, >o:v2 L M A-1", "  put2(o, (s*V2(a))/t);"),
 K("CVec2::operator+=", "a:p2 L, b:v2 L, c:v2 L, >o:p2 L", "  CVec2d x=V2(a); x+=V2(b); x-=V2(c); put2(o,x);"),
 K("CVec2::Mat3Vec2_AffineDirection", "m:n3n3, a:n2 L, >o:n2 L", "  put2(o, V2(a).Mat3Vec2_AffineDirection(m));"),
 K("CVec2::operator^", "a:v2 L, b:v2 M", "  return V2(a)^V2(b);", ret="x2 L M"),
 K("rotate", "a:v2 L, t:x2, >o:v2 L", "  put2(o, rotate(V2(a),t));"),
 K("rotate90", "a:v2 L, >o:x2v2 L", "  put2(o, rotate90(V2(a)));"),
 K("Mat2Vec", "m:v2v2 M, a:v2 L, >o:v2 L M", "  put2(o, Mat2Vec(m,V2(a)));"),
 K("Area_Tri2", "a:p2 L, b:p2 L, c:p2 L", "  return Area_Tri2(V2(a),V2(b),V2(c));", ret="x2 L2"),
 K("Cross(2D)", "a:v2 L, b:v2 M", "  return Cross(V2(a),V2(b));", ret="x2 L M"),
 K("SquareLength(2D)", "a:v2 L", "  return SquareLength(V2(a));", ret="s L2"),
 K("Length(2D)", "a:v2 L", "  return Length(V2(a));", ret="s L"),
 K("Distance(2D)", "a:p2 L, b:p2 L", "  return Distance(V2(a),V2(b));", ret="s L"),
 K("SquareDistance(2D)", "a:p2 L, b:p2 L", "  return SquareDistance(V2(a),V2(b));", ret="s L2"),
 K("TriHeight(2D)", "a:p2 L, b:p2 L, c:p2 L", "  return TriHeight(V2(a),V2(b),V2(c));", ret="x2 L"),
 K("Dot(2D)", "a:v2 L, b:v2 M", "  return Dot(V2(a),V2(b));", ret="s L M"),
 K("SquareCircumradius", "a:p2 L, b:p2 L, c:p2 L", "  return SquareCircumradius(V2(a),V2(b),V2(c));", ret="s L2"),
 K("CenterCircumcircle", "a:p2 L, b:p2 L, c:p2 L, >o:p2 L", "  CVec2d r=V2(a); CenterCircumcircle(V2(a),V2(b),V2(c),r); put2(o,r);"),
 K("DetDelaunay", "a:p2 L, b:p2 L, c:p2 L, d:p2 L", "  return DetDelaunay(V2(a),V2(b),V2(c),V2(d));", ret="int"),
 K("IsCrossLines", "a:p2 L, b:p2 L, c:p2 L, d:p2 L", "  return IsCrossLines(a,b,c,d);", ret="bool"),
 K("MakeMassMatrixTri", "rho:s M L-2, a:p2 L, b:p2 L, c:p2 L, >o:n3n3x2 M", "  const unsigned int ip[3]={0,1,2}; std::vector<CVec2d> v={V2(a),V2(b),V2(c)}; MakeMassMatrixTri(o,rho,ip,v);"),
]))
GROUPS.append((["vec3.h", "vec3_funcs.h"], [
 K("Dot3", "a:v3 L, b:v3 M", "  return Dot3(V3(a),V3(b));", ret="s L M"),
 K("Distance3", "a:p3 L, b:p3 L", "  return Distance3(a,b);", ret="s L"),
 K("Length3", "a:v3 L", "  return Length3(a);", ret="s L"),
 K("Normalize3", "<>a:v3", "  Normalize3(a);"),
 K("Normalize3(unit)", "a:v3 L, >o:v3", "  CVec3d x=V3(a); Normalize3(x); put3(o,x);"),
 K("SquareDistance3", "a:p3 L, b:p3 L", "  return SquareDistance3(a,b);", ret="s L2"),
 K("SquareLength3", "a:v3 L", "  return SquareLength3(a);", ret="s L2"),
 K("Cross(out)", "a:v3 L, b:v3 M, >o:a3 L M", "  Cross(o,a,b);"),
 K("Cross", "a:v3 L, b:v3 M, >o:a3 L M", "  put3(o,Cross(V3(a),V3(b)));"),
 K("ScalarTripleProduct", "a:v3 L, b:v3 M, c:v3 T", "  return ScalarTripleProduct(V3(a),V3(b),V3(c));", ret="x3 L M T"),
 K("AverageTwo3", "a:p3 L, b:p3 L, >o:p3 L", "  AverageTwo3(o,a,b);"),
 K("AverageFour3", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, >o:p3 L", "  AverageFour3(o,a,b,c,d);"),
 K("Add3", "<>a:p3 L, b:v3 L", "  Add3(a,b);"),
 K("FrameFromVectorZ", "n:n3, >x:n3, >y:n3", "  CVec3d a,b; FrameFromVectorZ(a,b,V3(n)); put3(x,a); put3(y,b);", skip=["parity"]),
 K("RotateVec3WithAxisAngleVector", "v:v3 L, r:a3, >o:v3 L", "  put3(o,RotateVec3WithAxisAngleVector(V3(v),V3(r)));"),
 K("CVec3::cross", "a:v3 L, b:v3 M, >o:a3 L M", "  put3(o,V3(a).cross(V3(b)));"),
 K("CVec3::dot", "a:v3 L, b:v3 M", "  return V3(a).dot(V3(b));", ret="s L M"),
 K("CVec3::mult", "a:v3 L, b:n3 M, >o:v3 L M", "  put3(o,V3(a).mult(V3(b)));", skip=["rot"]),
 K("CVec3::norm", "a:v3 L", "  return V3(a).norm();", ret="s L"),
 K("CVec3::squaredNorm", "a:v3 L", "  return V3(a).squaredNorm();", ret="s L2"),
 K("CVec3::normalized", "a:v3 L, >o:v3", "  put3(o,V3(a).normalized());"),
 K("CVec3::operators", "a:p3 L, b:v3 L, c:v3 M, s:s M, t:s A, >o:p3 L, >q:v3 L M A-1, >r:v3 L M", "  put3(o,V3(a)+V3(b)-(s*V3(b))/s); put3(q,(s*V3(b))/t); put3(r,-(V3(b)*s));"),
 K("CVec3::operator+=", "a:p3 L, b:v3 L, c:v3 L, s:s M, >o:p3 L, >q:v3 L M, >r:v3 L M-1", "  CVec3d x=V3(a); x+=V3(b); x-=V3(c); put3(o,x); CVec3d y=V3(b); y*=s; put3(q,y); CVec3d z=V3(b); z/=s; put3(r,z);"),
 K("CVec3::CopyToScale", "a:v3 L, s:s M, >o:v3 L M", "  V3(a).CopyToScale(o,s);"),
 K("CVec3::AddToScale", "a:v3 L, s:s M, <>o:v3 L M", "  V3(a).AddToScale(o,s);"),
]))
# ------------------------------------------------------------------ matrices
GROUPS.append((["mat2.h"], [
 K("MatVec2", "m:v2v2 M, a:v2 L, >o:v2 L M", "  MatVec2(o,m,a);"),
 K("MatMat2", "a:v2v2 M, b:v2v2 L, >o:v2v2 L M", "  MatMat2(o,a,b);"),
 K("InverseMat2", "b:v2v2 M, >o:v2v2 M-1", "  InverseMat2(o,b);", skip=["unset"]),
 K("gramian2", "a:v2v2 M, >o:v2v2 M2", "  gramian2(o,a);"),
 K("VLVt2", "l0:s M, l1:s M, v:v2n2, >o:v2v2 M", "  VLVt2(o,l0,l1,v);"),
 K("RotationalComponentOfMatrix2", "m:v2v2, >o:v2v2", "  RotationalComponentOfMatrix2(o,m);", skip=["rot", "unit"]),
 K("CMat2::determinant", "m:v2v2 M", "  return CMat2d(m[0],m[1],m[2],m[3]).determinant();", ret="s M2"),
 K("CMat2::outer_product", "a:v2 L, b:v2 M, >o:v2v2 L M", "  put4(o,CMat2d::outer_product(a,b));"),
 K("CMat2::transpose", "m:n2v2 M, >o:v2n2 M", "  put4(o,CMat2d(m[0],m[1],m[2],m[3]).transpose());"),
]))
GROUPS.append((["mat3.h", "mat3_funcs.h", "vec3.h"], [
 K("SquareNormFrobenius_SymMat3", "s:n6 M", "  return SquareNormFrobenius_SymMat3(s);", ret="s M2"),
 K("AxisAngleVectorCRV_Mat3", "m:v3v3, >o:a3", "  AxisAngleVectorCRV_Mat3(o,m);", skip=["rot", "parity"]),
 K("AxisAngleVectorCartesian_Mat3", "m:v3v3, >o:a3", "  AxisAngleVectorCartesian_Mat3(o,m);"),
 K("Vec3_AxisAngleVecFromMat3", "m:v3v3, >o:a3", "  put3(o,Vec3_AxisAngleVecFromMat3<CMat3d,double>(M3(m)));"),
 K("Vec3_SpinVectorFromMat3", "m:v3v3 M, >o:a3 M", "  put3(o,Vec3_SpinVectorFromMat3<CMat3d,double>(M3(m)));"),
 K("Mat3_Spin", "a:a3 L, >o:v3v3 L", "  Mat3_Spin(o,a);"),
 K("Mat3_Spin(vec)", "a:a3 L, >o:v3v3 L", "  put9(o,Mat3_Spin(V3(a)));"),
 K("Mat3_Spin_ScaleAdd", "a:a3 L, s:s M, t:s, <>o:v3v3 L M", "  Mat3_Spin_ScaleAdd(o,a,s,t);"),
 K("Mat3_Identity_ScaleAdd", "s:s M, t:s, <>o:v3v3 M", "  Mat3_Identity_ScaleAdd(o,s,t);"),
 K("Mat3_Identity", "s:s M, >o:v3v3 M", "  Mat3_Identity(o,s);"),
 K("Transpose_Mat3", "a:n3v3 M, >o:v3n3 M", "  Transpose_Mat3(o,a);"),
 K("Inverse_Mat3", "a:v3v3 M, >o:v3v3 M-1", "  Inverse_Mat3(o,a);"),
 K("Inverse_Mat3(inplace)", "<>o:v3v3", "  Inverse_Mat3(o);"),
 K("MatMat3", "a:v3v3 M, b:v3v3 L, >o:v3v3 L M", "  MatMat3(o,a,b);"),
 K("MatMat3(index)", "a:v3n3 M, b:n3n3 L, >o:v3n3 L M", "  MatMat3(o,a,b);"),
 K("MatMatT3", "a:v3v3 M, b:n3v3 L, >o:v3n3 L M", "  MatMatT3(o,a,b);"),
 K("MatTMat3", "a:v3n3 M, b:v3v3 L, >o:n3v3 L M", "  MatTMat3(o,a,b);"),
 K("MatTMat3_ScaleAdd", "a:v3n3 M, b:v3v3 L, s:s T, t:s, <>o:n3v3 L M T", "  MatTMat3_ScaleAdd(o,a,b,s,t);"),
 K("Det_Mat3", "a:v3v3 M", "  return Det_Mat3(a);", ret="s M3"),
 K("Det_Mat3(columns)", "a:v3n3 M", "  return Det_Mat3(a);", ret="x3 M3"),
 K("Mat3_RotMatFromAxisAngleVec", "a:a3, >o:v3v3", "  Mat3_RotMatFromAxisAngleVec(o,a);"),
 K("Mat3_RotMatFromAxisAngleVec(vec)", "a:a3, >o:v3v3", "  put9(o,Mat3_RotMatFromAxisAngleVec(V3(a)));"),
 K("Mat3_RotMatFromRodriguesVector", "a:a3, >o:v3v3", "  put9(o,Mat3_RotMatFromRodriguesVector(V3(a)));"),
 K("Mat3_RotMatFromConformalRotationVector", "a:a3, >o:v3v3", "  put9(o,Mat3_RotMatFromConformalRotationVector(V3(a)));"),
 K("MatTVec3", "m:v3n3 M, a:v3 L, >o:n3 L M", "  MatTVec3(o,m,a);"),
 K("MatTVec3_ScaleAdd", "m:v3n3 M, a:v3 L, s:s T, t:s, <>o:n3 L M T", "  MatTVec3_ScaleAdd(o,m,a,s,t);"),
 K("MatVec3", "m:n3v3 M, a:v3 L, >o:n3 L M", "  MatVec3(o,m,a);"),
 K("Mat3Vec3", "m:n3v3 M, a:v3 L, >o:n3 L M", "  put3(o,Mat3Vec3(m,V3(a)));"),
 K("MatVec3_ScaleAdd", "m:n3v3 M, a:v3 L, s:s T, t:s, <>o:n3 L M T", "  MatVec3_ScaleAdd(o,m,a,s,t);"),
 K("VecMat3", "m:v3n3 M, a:v3 L, >o:n3 L M", "  VecMat3(o,a,m);"),
 K("Mat3_From3Bases", "a:v3 L, b:v3 L, c:v3 L, >o:v3n3 L", "  put9(o,Mat3_From3Bases(V3(a),V3(b),V3(c)));"),
 K("Mat3_MinimumRotation", "a:v3, b:v3, >o:v3v3", "  put9(o,Mat3_MinimumRotation(V3(a),V3(b)));", skip=["degen", "parity"]),
 K("Mat3_OuterProduct", "a:v3 L, b:n3 M, >o:v3n3 L M", "  put9(o,Mat3_OuterProduct(V3(a),V3(b)));"),
 K("Mat3_CrossCross", "a:v3 L, >o:v3v3 L2", "  put9(o,Mat3_CrossCross(V3(a)));"),
 K("Mat3_IrotPoint", "a:v3 L, >o:v3v3 L2", "  put9(o,Mat3_IrotPoint<CVec3d,double>(V3(a)));"),
 K("Mat3_NormalProjection", "a:v3 L, >o:v3v3", "  put9(o,Mat3_NormalProjection(V3(a)));"),
 K("Mat3_Mirror", "a:v3 L, >o:v3v3", "  put9(o,Mat3_Mirror(V3(a)));"),
 K("Mat3_Quat", "q:q4, >o:v3v3", "  Mat3_Quat(o,q);"),
 K("Quat_Mat3", "m:v3v3, >o:q4", "  Quat_Mat3(o,m);", skip=["rot", "parity"]),
 K("CMat3::MatVec", "m:n3v3 M, a:v3 L, >o:n3 L M", "  put3(o,M3(m).MatVec(a));"),
 K("CMat3::MatVecTrans", "m:v3n3 M, a:v3 L, >o:n3 L M", "  M3(m).MatVecTrans(a,o);"),
 K("CMat3::MatMat", "a:v3n3 M, b:n3n3 L, >o:v3n3 L M", "  put9(o,M3(a).MatMat(M3(b)).p_);"),
 K("CMat3::MatMatTrans", "a:v3n3 M, b:v3n3 L, >o:n3n3 L M", "  put9(o,M3(a).MatMatTrans(M3(b)).p_);"),
 K("CMat3::Sym", "a:v3v3 M, >o:v3v3 M", "  put9(o,M3(a).Sym().p_);"),
 K("CMat3::Inverse", "a:v3v3 M, >o:v3v3 M-1", "  put9(o,M3(a).Inverse().p_);"),
 K("CMat3::SetInverse", "a:v3v3 M, >o:v3v3 M-1", "  CMat3d m=M3(a); m.SetInverse(); put9(o,m.p_);"),
 K("CMat3::SetRotMatrix_Quaternion", "q:q4, >o:v3v3", "  CMat3d m; m.SetRotMatrix_Quaternion(q); put9(o,m.p_);"),
 K("CMat3::GetQuaternion", "m:v3v3, >o:q4", "  put4(o,M3(m).GetQuaternion());", skip=["rot", "parity"]),
 K("CMat3::transpose", "a:n3v3 M, >o:v3n3 M", "  put9(o,M3(a).transpose().p_);"),
 K("CMat3::determinant", "a:v3v3 M", "  return M3(a).determinant();", ret="s M3"),
 K("CMat3::squaredNorm", "a:v3v3 M", "  return M3(a).squaredNorm();", ret="s M2"),
 K("CMat3::trace", "a:v3v3 M", "  return M3(a).trace();", ret="s M"),
 K("CMat3::SecondInvarint", "a:v3v3 M", "  return M3(a).SecondInvarint();", ret="s M2"),
 K("CMat3::Skew", "a:a3 L, >o:v3v3 L", "  put9(o,CMat3d::Skew(a).p_);"),
 K("CMat3::OuterProduct", "a:v3 L, b:n3 M, >o:v3n3 L M", "  put9(o,CMat3d::OuterProduct(a,b).p_);"),
 K("CMat3::Quat", "q:q4, >o:v3v3", "  put9(o,CMat3d::Quat(q).p_);"),
 K("CMat3*CVec3", "m:n3v3 M, a:v3 L, >o:n3 L M", "  put3(o,M3(m)*V3(a));"),
 K("CVec3*CMat3", "m:v3n3 M, a:v3 L, >o:n3 L M", "  put3(o,V3(a)*M3(m));"),
 K("CMat3*CMat3", "a:v3n3 M, b:n3n3 L, >o:v3n3 L M", "  put9(o,(M3(a)*M3(b)).p_);"),
 K("CMat3 linear", "a:v3n3 M, b:v3n3 M, s:s L, >o:v3n3 L M", "  put9(o,(s*(M3(a)+M3(b))-M3(a)*s).p_);"),
 K("CMat3/scalar", "a:v3n3 M, s:s L, >o:v3n3 L-1 M", "  put9(o,(M3(a)/s).p_);"),
 K("CMat3::AddToScale", "a:v3n3 M, s:s L, <>o:v3n3 M L", "  M3(a).AddToScale(o,s);"),
 K("CMat3::CopyToScale", "a:v3n3 M, s:s L, >o:v3n3 M L", "  M3(a).CopyToScale(o,s);"),
]))
GROUPS.append((["mat4.h", "vec3.h", "quat.h", "mat3.h"], [
 K("Inverse_Mat4", "m:n4n4 M, >o:n4n4 M-1", "  Inverse_Mat4(o,m);", skip=["unit"]),
 K("CMat4::Inverse", "m:n4n4 M, >o:n4n4 M-1", "  put16(o,M4(m).Inverse().mat);", skip=["unit"]),
 K("MatMat4", "a:h4g4, b:h4g4, >o:h4g4", "  MatMat4(o,a,b);"),
 K("CMat4*CMat4", "a:h4g4, b:h4g4, >o:h4g4", "  put16(o,(M4(a)*M4(b)).mat);"),
 K("Transpose_Mat4", "a:h4g4, >o:g4h4", "  Transpose_Mat4(o,a);"),
 K("CMat4::transpose", "a:h4g4, >o:g4h4", "  put16(o,M4(a).transpose().mat);"),
 K("Mat4_Mat3", "a:v3v3, >o:h4g4", "  double k[9]; for(int i=0;i<9;++i){k[i]=a[i];} Mat4_Mat3(o,k);"),
 K("Mat4_AffineTrans_RotTransl", "r:v3v3, t:v3 L, >o:g4h4", "  Mat4_AffineTrans_RotTransl(o,r,t);"),
 K("Mat4_AffineLookAt", "e:p3 L, c:p3 L, u:v3, >o:n4g4", "  Mat4_AffineLookAt(o,e[0],e[1],e[2],c[0],c[1],c[2],u[0],u[1],u[2]);", skip=["unit", "parity", "weight"]),
 K("Mat4_AffineScale", "s:s, >o:h4g4", "  Mat4_AffineScale(o,s);"),
 K("Mat4_AffineTranslation", "d:v3 L, >o:h4g4", "  Mat4_AffineTranslation(o,d[0],d[1],d[2]);"),
 K("Mat4_AffineTranslation(array)", "d:v3 L, >o:h4g4", "  put16(o,Mat4_AffineTranslation(d[0],d[1],d[2]));"),
 K("Mat4_AffineRotationRodriguez", "a:a3, >o:h4g4", "  put16(o,Mat4_AffineRotationRodriguez(a[0],a[1],a[2]));"),
 K("Mat4_AffineRotationCartesian", "a:a3, >o:h4g4", "  Mat4_AffineRotationCartesian(o,a);"),
 K("Rotate_Mat4AffineRodriguez", "a:a3, <>m:h4g4", "  Rotate_Mat4AffineRodriguez(m,a);"),
 K("Translate_Mat4Affine", "a:v3 L, <>m:h4g4", "  Translate_Mat4Affine(m,a);"),
 K("MatVec4", "m:n4h4 M, a:h4, >o:n4 M L", "  MatVec4(o,m,a);", skip=["unit"]),
 K("Mat4Vec3(array)", "m:h4g4, a:v3 L, >o:v3 L", "  put3(o,Mat4Vec3(m,V3(a)));"),
 K("Mat4Vec3", "m:h4g4, a:v3 L, >o:v3 L", "  Mat4Vec3(o,m,a);"),
 K("VecMat4", "m:g4n4 M, a:h4, >o:n4 M", "  VecMat4(o,a,m);"),
 K("Vec3Mat4", "m:g4h4, a:v3 L, >o:v3 L", "  Vec3Mat4(o,a,m);", skip=["unit"]),
 K("Vec3_Mat4Vec3_Homography", "m:h4g4, a:v3 L, >o:v3 L", "  put3(o,Vec3_Mat4Vec3_Homography(m,a));"),
 K("Vec2_Mat4Vec3_Homography", "m:h4g4, a:v3 L, >o:v2 L", "  put2(o,Vec2_Mat4Vec3_Homography(m,a));", skip=["rot"]),
 K("Vec3_Vec3Mat4_Homography", "m:g4h4, a:v3 L, >o:v3 L", "  Vec3_Vec3Mat4_Homography(o,a,m);"),
 K("Vec3_Mat4Vec3_Affine", "m:h4g4, a:v3 L, >o:v3 L", "  Vec3_Mat4Vec3_Affine(o,m,a);"),
 K("Mat4_AffineQuaternion", "q:q4, >o:h4g4", "  Mat4_AffineQuaternion(o,q);"),
 K("Mat4_AffineQuaternionConjugate", "q:q4, >o:h4g4", "  Mat4_AffineQuaternionConjugate(o,q);"),
 K("Mat4_ScaleRotTrans", "s:s, q:q4, t:v3 L, >o:h4g4", "  Mat4_ScaleRotTrans(o,s,q,t);"),
 K("CMat4::Skew", "a:a3 L, >o:v3v3 L", "  put9(o,CMat4d::Skew(a).GetMat3());"),
 K("CMat4::Quat", "q:q4, >o:h4g4", "  put16(o,CMat4d::Quat(q).mat);"),
 K("CMat4::Translation", "a:v3 L, >o:h4g4", "  put16(o,CMat4d::Translation(a).mat);"),
 K("CMat4::Mat3", "a:v3v3, >o:h4g4", "  put16(o,CMat4d::Mat3(a).mat);"),
 K("CMat4::GetMat3", "m:h4g4, >o:v3v3", "  put9(o,M4(m).GetMat3());"),
 K("CMat4::GetTranslationComponent", "m:h4g4, >o:v3 L", "  put3(o,M4(m).GetTranslationComponent());"),
 K("CMat4::MultVec3", "m:h4g4, a:v3 L, >o:v3 L", "  put3(o,M4(m).MultVec3(a));"),
 K("CMat4::MultVec3_Homography", "m:h4g4, a:v3 L, >o:v3 L", "  put3(o,M4(m).MultVec3_Homography(a));"),
 K("Normalize_Quat", "<>q:q4", "  Normalize_Quat(q);"),
 K("Inverse_Quat", "q:q4 M, >o:q4 M-1", "  double p[4]={q[0],q[1],q[2],q[3]}; Inverse_Quat(o,p);"),
 K("QuatQuat", "a:q4 L, b:q4 M, >o:q4 L M", "  QuatQuat(o,a,b);"),
 K("Quat_CartesianAngle", "a:a3, >o:q4", "  Quat_CartesianAngle(o,a);"),
 K("Quat_Bryant", "a:a3, >o:q4", "  Quat_Bryant(o,a[0],a[1],a[2]);", skip=["rot"]),
 K("Dot_Quat", "a:q4 L, b:q4 M", "  return Dot_Quat(a,b);", ret="s L M"),
 K("Length_Quat", "a:q4 L", "  return Length_Quat(a);", ret="s L"),
 K("QuatVec", "q:q4, v:v3 L, >o:v3 L", "  QuatVec(o,q,v);"),
 K("QuatVec3", "q:q4, v:v3 L, >o:v3 L", "  put3(o,QuatVec3(q,V3(v)));"),
 K("QuatConjVec", "q:q4, v:v3 L, >o:v3 L", "  QuatConjVec(o,q,v);"),
 K("CQuat::conjugate", "q:q4, >o:q4", "  put4(o,Q4(q).conjugate().p);"),
 K("CQuat*CQuat", "a:q4 L, b:q4 M, >o:q4 L M", "  put4(o,(Q4(a)*Q4(b)).p);"),
 K("CQuat::RotateVector", "q:q4, v:v3 L, >o:v3 L", "  put3(o,Q4(q).RotateVector(V3(v)));"),
 K("SphericalLinearInterp", "a:q4, b:q4, t:s, >o:q4", "  put4(o,SphericalLinearInterp(Q4(a),Q4(b),t).p);"),
 K("CQuat linear", "a:q4 M, b:q4 M, s:s L, >o:q4 M L", "  put4(o,(s*(Q4(a)+Q4(b)-Q4(b))).p);"),
]))
# ------------------------------------------------------------------ geometry
P4 = "V3(a),V3(b),V3(c),V3(d)"
GROUPS.append((["geo_tri.h", "geo_plane.h", "geo_line.h", "geo_edge.h", "vec2.h", "vec3.h", "mat3.h"], [
 K("Nearest_Triangle3_Point3", "p:p3 L, a:p3 L, b:p3 L, c:p3 L, >o:p3 L, >r0:s, >r1:s", "  Nearest_Triangle3_Point3(o,*r0,*r1,p,a,b,c);", skip=["unit", "parity"]),
 K("Nearest_Origin3_Tri3", "a:v3 L, b:v3 L, c:v3 L, >o:v3 L, >r0:s, >r1:s", "  put3(o,Nearest_Origin3_Tri3(*r0,*r1,V3(a),V3(b),V3(c)));"),
 K("IntersectRay_Tri3", "s:p3 L, d:v3 L, a:p3 L, b:p3 L, c:p3 L, >r0:s, >r1:s", "  IntersectRay_Tri3(*r0,*r1,V3(s),V3(d),V3(a),V3(b),V3(c),1.0e-5);", skip=["unset"]),
 K("ProjectPointOnTriangle", "p:p3 L, a:p3 L, b:p3 L, c:p3 L, >o:p3 L", "  put3(o,ProjectPointOnTriangle(V3(p),V3(a),V3(b),V3(c)));"),
 K("isPointInsideTriangle", "p:p3 L, a:p3 L, b:p3 L, c:p3 L", "  return isPointInsideTriangle(V3(p),V3(a),V3(b),V3(c));", ret="bool"),
 K("isRayIntersectingTriangle", "s:p3 L, d:p3 L, a:p3 L, b:p3 L, c:p3 L, >o:p3 L", "  CVec3d x=V3(s); isRayIntersectingTriangle(V3(s),V3(d),V3(a),V3(b),V3(c),x); put3(o,x);"),
 K("DistanceFaceVertex", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, >w0:s, >w1:s", "  return DistanceFaceVertex(%s,*w0,*w1);" % P4, ret="s L"),
 K("Area_Tri3", "a:p3 L, b:p3 L, c:p3 L", "  return Area_Tri3(V3(a),V3(b),V3(c));", ret="s L2"),
 K("SquareTriArea", "a:p3 L, b:p3 L, c:p3 L", "  return SquareTriArea(V3(a),V3(b),V3(c));", ret="s L4"),
 K("Normal_Tri3", "a:p3 L, b:p3 L, c:p3 L, >o:a3 L2", "  CVec3d n; Normal_Tri3(n,V3(a),V3(b),V3(c)); put3(o,n);"),
 K("Normal_Tri3(ret)", "a:p3 L, b:p3 L, c:p3 L, >o:a3 L2", "  put3(o,Normal_Tri3(V3(a),V3(b),V3(c)));"),
 K("UnitNormal_Tri3", "a:p3 L, b:p3 L, c:p3 L, >o:a3", "  CVec3d n; UnitNormal_Tri3(n,V3(a),V3(b),V3(c)); put3(o,n);"),
 K("UnitNormal_Tri3(ret)", "a:p3 L, b:p3 L, c:p3 L, >o:a3", "  put3(o,UnitNormal_Tri3(V3(a),V3(b),V3(c)));"),
 K("UnitNormalAreaTri3", "a:p3 L, b:p3 L, c:p3 L, >o:a3, >s:s L2", "  CVec3d n; UnitNormalAreaTri3(n,*s,V3(a),V3(b),V3(c)); put3(o,n);"),
 K("SolidAngleTri", "a:v3 L, b:v3 L, c:v3 L", "  return SolidAngleTri(V3(a),V3(b),V3(c));", ret="x3", skip=["parity"]),
 K("CG_Tri3(mesh)", "a:n3p3 L, >o:p3 L", "  std::vector<unsigned int> t={0,1,2}; std::vector<double> v(a,a+9); put3(o,CG_Tri3(0,t,v));"),
 K("Normal_Tri3(mesh)", "a:n3p3 L, >o:a3 L2", "  std::vector<unsigned int> t={0,1,2}; std::vector<double> v(a,a+9); put3(o,Normal_Tri3(0,t,v));"),
 K("Mat3_IrotTri", "a:v3 L, b:v3 L, c:v3 L, >o:v3v3 L4", "  put9(o,Mat3_IrotTri(V3(a),V3(b),V3(c)));"),
 K("Mat3_IrotTriSolid", "a:v3 L, b:v3 L, c:v3 L, >o:x3v3v3 L5", "  put9(o,Mat3_IrotTriSolid(V3(a),V3(b),V3(c)));"),
 K("Mat3_IrotLineSeg", "a:v3 L, b:v3 L, >o:v3v3 L3", "  put9(o,Mat3_IrotLineSeg(V3(a),V3(b)));"),
 K("Nearest_Plane3_Point3", "p:p3 L, a:p3 L, n:v3, >o:p3 L", "  put3(o,Nearest_Plane3_Point3(V3(p),V3(a),V3(n)));"),
 K("Nearest_Origin3_PlaneTri3", "a:v3 L, b:v3 L, c:v3 L, >o:v3 L, >r0:s, >r1:s", "  put3(o,Nearest_Origin3_PlaneTri3(*r0,*r1,V3(a),V3(b),V3(c)));"),
 K("Intersection_Plane3_Line3(tri)", "s:p3 L, d:v3 L, a:p3 L, b:p3 L, c:p3 L, >o:p3 L, >r0:s, >r1:s, >r2:s", "  CVec3d x; Intersection_Plane3_Line3(x,*r0,*r1,*r2,1.0e-5,V3(s),V3(d),V3(a),V3(b),V3(c)); put3(o,x);"),
 K("Intersection_Plane3_Line3", "a:p3 L, n:v3, s:p3 L, d:v3 M, >o:p3 L", "  put3(o,Intersection_Plane3_Line3(V3(a),V3(n),V3(s),V3(d)));"),
 K("FindNearestPointParameter_Line_Point", "p:p3 L, a:p3 L, b:p3 L", "  return FindNearestPointParameter_Line_Point(V3(p),V3(a),V3(b));", ret="s"),
 K("FindNearestPointParameter_Line_Point(2D)", "p:p2 L, a:p2 L, b:p2 L", "  return FindNearestPointParameter_Line_Point(V2(p),V2(a),V2(b));", ret="s"),
 K("Nearest_Line3_Point3", "p:p3 L, s:p3 L, d:v3 M, >o:p3 L", "  put3(o,Nearest_Line3_Point3(V3(p),V3(s),V3(d)));"),
 K("Nearest_Line3_Point3(param)", "p:p3 L, s:p3 L, d:v3 M, >o:p3 L, >t:s L M-1", "  put3(o,Nearest_Line3_Point3(*t,V3(p),V3(s),V3(d)));"),
 K("Nearest_Line3_Line3", "s:p3 L, d:v3 M, t:p3 L, e:v3 M, >D:s M4, >x:v3, >y:v3, >p:s, >q:s", "  CVec3d u,v; Nearest_Line3_Line3(*D,u,v,*p,*q,V3(s),V3(d),V3(t),V3(e)); put3(x,u); put3(y,v);", skip=["unit", "weight"]),
 K("Nearest_Line_Circle", "s:p3 L, d:v3, c:p3 L, n:v3, r:s L, >o:p3 L, >q:p3 L", "  CVec3d u,v; Nearest_Line_Circle(u,v,V3(s),V3(d),V3(c),V3(n),r); put3(o,u); put3(q,v);", skip=["rot", "parity", "unit!"]),
 K("Nearest_Origin_Edge", "a:v3 L, b:v3 L, >o:v3 L, >r:s", "  put3(o,Nearest_Origin_Edge(*r,V3(a),V3(b)));"),
 K("Nearest_Origin_Edge(2)", "a:v3 L, b:v3 L, >o:v3 L", "  put3(o,Nearest_Origin_Edge(V3(a),V3(b)));"),
 K("Nearest_Edge_Point", "p:p3 L, a:p3 L, b:p3 L, >o:p3 L", "  put3(o,Nearest_Edge_Point(V3(p),V3(a),V3(b)));"),
 K("Nearest_Edge_Point(2D)", "p:p2 L, a:p2 L, b:p2 L, >o:p2 L", "  put2(o,Nearest_Edge_Point(V2(p),V2(a),V2(b)));"),
 K("Nearest_Edge_Point(param)", "p:p3 L, a:p3 L, b:p3 L, >o:p3 L, >t:s", "  put3(o,Nearest_Edge_Point(*t,V3(p),V3(a),V3(b)));"),
 K("Distance_Edge_Point", "p:p3 L, a:p3 L, b:p3 L", "  return Distance_Edge_Point(V3(p),V3(a),V3(b));", ret="s L"),
 K("IsIntersect_Edge2_Edge2", "a:p2 L, b:p2 L, c:p2 L, d:p2 L", "  return IsIntersect_Edge2_Edge2(V2(a),V2(b),V2(c),V2(d));", ret="bool"),
 K("Distance_Edge2_Edge2", "a:p2 L, b:p2 L, c:p2 L, d:p2 L", "  return Distance_Edge2_Edge2(V2(a),V2(b),V2(c),V2(d));", ret="s L"),
 K("Nearest_Edge3_Point3", "p:p3 L, a:p3 L, b:p3 L, >o:p3 L", "  Nearest_Edge3_Point3(o,p,a,b);"),
 K("Nearest_Edge3_Line3", "a:p3 L, b:p3 L, s:p3 L, d:v3 M, >o:p3 L, >q:p3 L", "  CVec3d u,v; Nearest_Edge3_Line3(u,v,V3(a),V3(b),V3(s),V3(d)); put3(o,u); put3(q,v);"),
 K("Distance_Edge3_Edge3", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, >r0:s, >r1:s", "  return Distance_Edge3_Edge3(%s,*r0,*r1);" % P4, ret="s L"),
 K("IsContact_Edge3_Edge3_Proximity", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, e:s L", "  return IsContact_Edge3_Edge3_Proximity(0,1,2,3,%s,e);" % P4, ret="bool", skip=["parity"]),
]))
GROUPS.append((["geo_tet.h", "geo_quad.h", "geo_ccd.h", "geo_aabb.h", "vec3.h", "mat3.h", "geosolidelm_v3.h"], [
 K("Height_Tet", "a:p3 L, b:p3 L, c:p3 L, d:p3 L", "  return Height_Tet(%s);" % P4, ret="x3 L"),
 K("barycentricCoord_Origin_Tet", "a:v3 L, b:v3 L, c:v3 L, d:v3 L, >r0:s, >r1:s, >r2:s", "  barycentricCoord_Origin_Tet(*r0,*r1,*r2,%s);" % P4, skip=["unset"]),
 K("Volume_OrgTet", "a:v3 L, b:v3 L, c:v3 L", "  return Volume_OrgTet(V3(a),V3(b),V3(c));", ret="x3 L3"),
 K("Volume_Tet", "a:p3 L, b:p3 L, c:p3 L, d:p3 L", "  return Volume_Tet(%s);" % P4, ret="x3 L3"),
 K("Mat3_3BasesOfTet", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, >o:v3n3 L", "  put9(o,Mat3_3BasesOfTet(%s));" % P4),
 K("DeformationGradientOfTet", "A:p3 L, B:p3 L, C:p3 L, D:p3 L, a:p3 M, b:p3 M, c:p3 M, d:p3 M, >o:v3v3 M L-1", "  put9(o,DeformationGradientOfTet(V3(A),V3(B),V3(C),V3(D),%s));" % P4),
 K("DiffDeformationGradientOfTet", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, >o:n4v3 L-1", "  DiffDeformationGradientOfTet(OA(o,3),%s);" % P4),
 K("LongestSquaredEdgeLengthOfTet", "a:p3 L, b:p3 L, c:p3 L, d:p3 L", "  return LongestSquaredEdgeLengthOfTet(%s);" % P4, ret="s L2"),
 K("ShortestSquaredEdgeLengthOfTet", "a:p3 L, b:p3 L, c:p3 L, d:p3 L", "  return ShortestSquaredEdgeLengthOfTet(%s);" % P4, ret="s L2"),
 K("QuadBilinear", "a:n4p3 L, r:s, s:s, >o:p3 L", "  std::vector<int> q={0,1,2,3}; std::vector<CVec3d> v={V3(a),V3(a+3),V3(a+6),V3(a+9)}; put3(o,QuadBilinear(0,r,s,q,v));"),
 K("Nearst_Origin3_Quad3", "a:v3 L, b:v3 L, c:v3 L, d:v3 L, >o:v3 L, >r0:s, >r1:s", "  put3(o,Nearst_Origin3_Quad3(*r0,*r1,%s));" % P4, skip=["unset"]),
 K("intersection_Point_Quad", "s:p3 L, e:v3, a:p3 L, b:p3 L, c:p3 L, d:p3 L, >o:p3 L, >r0:s, >r1:s", "  CVec3d x=V3(a); intersection_Point_Quad(x,*r0,*r1,V3(s),V3(e),%s); put3(o,x);" % P4, skip=["unset", "parity"]),
 K("iteration_intersection_Line_Quad", "s:p3 L, u:v3, v:v3, a:p3 L, b:p3 L, c:p3 L, d:p3 L, <>r0:s, <>r1:s", "  iteration_intersection_Line_Quad(*r0,*r1,V3(s),V3(u),V3(v),%s);" % P4),
 K("FindCoplanerInterp", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, e:p3 L, f:p3 L, g:p3 L, h:p3 L, >r:s", "  FindCoplanerInterp(*r,%s,V3(e),V3(f),V3(g),V3(h));" % P4, skip=["unset", "parity"]),
 K("Nearest_LineSeg_LineSeg_CCD_Iteration", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, e:p3 L, f:p3 L, g:p3 L, h:p3 L, <>p:n3", "  return Nearest_LineSeg_LineSeg_CCD_Iteration(p,%s,V3(e),V3(f),V3(g),V3(h),4);" % P4, ret="s L"),
 K("IsContact_Orgin_AabbOfPoint4", "a:v3 L, b:v3 L, c:v3 L, d:v3 L, e:s L", "  return IsContact_Orgin_AabbOfPoint4(%s,e);" % P4, ret="bool"),
 K("IsContact_FV_CCD2", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, e:p3 L, f:p3 L, g:p3 L, h:p3 L", "  return IsContact_FV_CCD2(0,1,2,3,%s,V3(e),V3(f),V3(g),V3(h));" % P4, ret="bool", skip=["parity"]),
]))
# ------------------------------------------------------------------ finite elements
GROUPS.append((["femutil.h"], [
 K("femutil::TriArea2D", "a:p2 L, b:p2 L, c:p2 L", "  return femutil::TriArea2D(a,b,c);", ret="x2 L2"),
 K("femutil::TriAreaCoord", "a:p2 L, b:p2 L, c:p2 L, p:p2 L, >o:n3", "  femutil::TriAreaCoord(o,a,b,c,p);"),
 K("femutil::Distance3D", "a:p3 L, b:p3 L", "  return femutil::Distance3D(a,b);", ret="s L"),
 K("femutil::TriArea3D", "a:p3 L, b:p3 L, c:p3 L", "  return femutil::TriArea3D(a,b,c);", ret="s L2"),
 K("femutil::UnitNormalAreaTri3D", "a:p3 L, b:p3 L, c:p3 L, >n:a3, >s:s L2", "  femutil::UnitNormalAreaTri3D(n,*s,a,b,c);"),
 K("femutil::Dot3D", "a:v3 L, b:v3 M", "  return femutil::Dot3D(a,b);", ret="s L M"),
 K("femutil::Cross3D", "a:v3 L, b:v3 M, >o:a3 L M", "  femutil::Cross3D(o,a,b);"),
 K("femutil::TetVolume3D", "a:p3 L, b:p3 L, c:p3 L, d:p3 L", "  return femutil::TetVolume3D(a,b,c,d);", ret="x3 L3"),
 K("femutil::MatVec3", "m:n3v3 M, a:v3 L, >o:n3 L M", "  femutil::MatVec3(o,m,a);"),
 K("femutil::MatMat3", "a:v3n3 M, b:n3n3 L, >o:v3n3 L M", "  femutil::MatMat3(o,a,b);"),
 K("femutil::MatMatTrans3", "a:v3v3 M, b:n3v3 L, >o:v3n3 L M", "  femutil::MatMatTrans3(o,a,b);"),
 K("TriDlDx", "a:p2 L, b:p2 L, c:p2 L, >d:n3v2 L-1, >o:n3", "  TriDlDx(OA(d,2),o,a,b,c);", skip=["weight"]),
 K("TetDlDx", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, >g:n4v3 L-1, >o:n4", "  TetDlDx(OA(g,3),o,a,b,c,d);", skip=["weight"]),
 K("ShapeFunc_Hex8", "r0:s, r1:s, r2:s, c:n8p3 L, >j:x3 L3, >d:n8v3 L-1, >n:n8", "  ShapeFunc_Hex8(r0,r1,r2,CA(c,3),*j,OA(d,3),n);"),
 K("ShapeFunc_Vox8", "r0:s, r1:s, r2:s, c:n8p3 L, >j:x3 L3, >d:n8v3 L-1, >n:n8", "  ShapeFunc_Vox8(r0,r1,r2,CA(c,3),*j,OA(d,3),n);", skip=["parity"]),
 K("RightCauchyGreen_DispGrad<3>", "u:v3v3, >o:v3v3", "  RightCauchyGreen_DispGrad<3>(OA(o,3),CA(u,3));"),
 K("DispGrad_GradshapeDisp<3,8>", "g:n8v3 L-1, u:n8v3 L, >o:v3v3", "  DispGrad_GradshapeDisp<3,8,double>(OA(o,3),CA(g,3),CA(u,3));"),
 K("DiffShapeFuncAtQuadraturePoint_Hex", "c:n8p3 L, >d:n8v3 L-1", "  return DiffShapeFuncAtQuadraturePoint_Hex(OA(d,3),1,0,1,0,CA(c,3));", ret="x3 L3"),
 K("DetInv_Mat3", "m:v3v3 L, >o:v3v3 L-1", "  return DetInv_Mat3(OA(o,3),CA(m,3));", ret="s L3"),
 K("AddEmatConsistentMassTet", "w:s M, >+o:n4n4v3v3 M", "  AddEmatConsistentMassTet<3>(OC(o,4,3,3),w);"),
 K("SetEMatLaplaceTet(vec)", "w:s M, d:n4v3 L-1, >o:n4n4v3v3 M L-2", "  SetEMatLaplaceTet(OC(o,4,3,3),w,CA(d,3));"),
 K("SetEMatLaplaceTet", "w:s M, d:n4v3 L-1, >o:n4n4 M L-2", "  SetEMatLaplaceTet(OA(o,4),w,CA(d,3));"),
 K("SetEmatConsistentMassTet", "w:s M, >o:n4n4v3v3 M", "  SetEmatConsistentMassTet(OC(o,4,3,3),w);"),
 K("EmatConsistentMassTri2", "w:s M, >o:n3n3v2v2 M", "  EmatConsistentMassTri2<2>(OC(o,3,2,2),w,false);"),
 K("AddEmatEvecScale3", "e:n4n4v3v3 M, v:n4v3 L, s:s T, <>o:n4v3 L M T", "  AddEmatEvecScale3<4>(OA(o,3),CC(e,4,3,3),CA(v,3),s);"),
]))
ST = "M L-1 T-2"     # stress
GROUPS.append((["fem_poisson.h", "fem_helmholtz.h"], [
 K("EMat_Poisson_Tri2D", "k:s M, q:s M A L-2, c:n3p2 L, v:n3 A, >r:n3x2 M A, >e:n3n3x2 M", "  EMat_Poisson_Tri2D(r,OA(e,3),k,q,CA(c,2),v);"),
 K("EMat_Poission2_QuadOrth", "x:s L, y:s L, >e:n4n4", "  EMat_Poission2_QuadOrth(OA(e,4),x,y);"),
 K("EMat_Poisson2_QuadOrth_GaussInt", "x:s L, y:s L, >e:n4n4", "  EMat_Poisson2_QuadOrth_GaussInt(OA(e,4),x,y,1);"),
 K("EMat_Poisson_Tet3D", "k:s M, q:s M A L-2, c:n4p3 L, v:n4 A, >r:n4x3 M A L, >e:n4n4x3 M L", "  EMat_Poisson_Tet3D(r,OA(e,4),k,q,CA(c,3),v);"),
 K("EMat_Diffusion_Tri2D", "k:s L2 M T-1, q:s M A T-1, t:s T, g:s, rho:s M, c:n3p2 L, v:n3 A, w:n3 A T-1, >r:n3x2 M A L2 T-1, >e:n3n3x2 M L2", "  EMat_Diffusion_Tri2D(r,OA(e,3),k,q,t,g,rho,CA(c,2),v,w);"),
 K("EMat_Diffusion_Newmark_Tet3D", "k:s L2 M T-1, q:s M A T-1, t:s T, g:s, rho:s M, c:n4p3 L, v:n4 A, w:n4 A T-1, >r:n4x3 M A L3 T-1, >e:n4n4x3 M L3", "  EMat_Diffusion_Newmark_Tet3D(r,OA(e,4),k,q,t,g,rho,CA(c,3),v,w);"),
 K("EMat_Helmholtz_Tri2D", "l:s L, c:n3p2 L, v:n6 A, >r:n6x2 A, >e:n3n6x2", "  using C=std::complex<double>; EMat_Helmholtz_Tri2D((C*)r,(C(*)[3])e,l,CA(c,2),(const C*)v);"),
 K("EMat_SommerfeltRadiationBC_Line2D", "l:s L, c:n2p2 L, v:n4 A, >r:n4 A, >e:n2n4", "  using C=std::complex<double>; EMat_SommerfeltRadiationBC_Line2D((C*)r,(C(*)[2])e,l,CA(c,2),(const C*)v);"),
]))
GROUPS.append((["fem_solidlinear.h"], [
 K("EMat_SolidLinear2_QuadOrth_GaussInt", "x:s L, y:s L, m:s %s, l:s %s, >e:n4n4v2v2 %s" % (ST, ST, ST), "  EMat_SolidLinear2_QuadOrth_GaussInt(OC(e,4,2,2),x,y,m,l,1);", skip=["rot", "parity"]),
 K("EMat_SolidLinear_Static_Tet", "m:s %s, l:s %s, c:n4p3 L, u:n4v3 L, >e:n4n4x3v3v3 M T-2, >r:n4x3v3 M L T-2" % (ST, ST), "  EMat_SolidLinear_Static_Tet(OC(e,4,3,3),OA(r,3),m,l,CA(c,3),CA(u,3),false);"),
 K("stress_LinearSolid_TetP2", "l0:s, l1:s, l2:s, l3:s, v:s L3, l:s %s, m:s %s, g:v3 L T-2, d:n4v3 L-1, u:n10v3 L, >o:v3v3 %s" % (ST, ST, ST), "  stress_LinearSolid_TetP2(OA(o,3),l0,l1,l2,l3,v,l,m,g[0],g[1],g[2],CA(d,3),CA(u,3));"),
 K("elemMatRes_LinearSolidGravity3_Static_Q1", "m:s %s, l:s %s, rho:s M L-3, g:v3 L T-2, c:n8p3 L, u:n8v3 L, >e:n8n8x3v3v3 M T-2, >r:n8x3v3 M L T-2" % (ST, ST), "  elemMatRes_LinearSolidGravity3_Static_Q1(m,l,rho,g,CA(c,3),CA(u,3),OC(e,8,3,3),OA(r,3));"),
 K("matRes_LinearSolid_TetP2", "v:s L3, m:s %s, l:s %s, g:v3 L T-2, rho:s M L-3, d:n4v3 L-1, u:n10v3 L, >e:n10n10v3v3 M T-2, >r:n10v3 M L T-2" % (ST, ST), "  matRes_LinearSolid_TetP2(OC(e,10,3,3),OA(r,3),v,l,m,g[0],g[1],g[2],rho,CA(d,3),CA(u,3));"),
 K("EMat_SolidLinear_NewmarkBeta_MeshTet3D", "m:s %s, l:s %s, rho:s M L-3, g:v3 L T-2, t:s T, ga:s, be:s, u:n4v3 L, v:n4v3 L T-1, a:n4v3 L T-2, c:n4p3 L, >r:n4x3v3 M L T-2, >e:n4n4x3v3v3 M" % (ST, ST), "  EMat_SolidLinear_NewmarkBeta_MeshTet3D(OA(r,3),OC(e,4,3,3),m,l,rho,g[0],g[1],g[2],t,ga,be,CA(u,3),CA(v,3),CA(a,3),CA(c,3),true);"),
 K("EMat_SolidLinear_NewmarkBeta_MeshTet3D(later)", "m:s %s, l:s %s, rho:s M L-3, g:v3 L T-2, t:s T, ga:s, be:s, u:n4v3 L, v:n4v3 L T-1, a:n4v3 L T-2, c:n4p3 L, >r:n4x3v3 M L T-2, >e:n4n4x3v3v3 M" % (ST, ST), "  EMat_SolidLinear_NewmarkBeta_MeshTet3D(OA(r,3),OC(e,4,3,3),m,l,rho,g[0],g[1],g[2],t,ga,be,CA(u,3),CA(v,3),CA(a,3),CA(c,3),false);"),
 K("EMat_SolidDynamicLinear_Tri2D", "m:s %s, l:s %s, rho:s M L-3, g:v2 L T-2, t:s T, ga:s, be:s, u:n3v2 L, v:n3v2 L T-1, a:n3v2 L T-2, c:n3p2 L, >r:n3x2v2 M T-2, >e:n3n3x2v2v2 M L-1" % (ST, ST), "  EMat_SolidDynamicLinear_Tri2D(OA(r,2),OC(e,3,2,2),m,l,rho,g[0],g[1],t,ga,be,CA(u,2),CA(v,2),CA(a,2),CA(c,2),true);"),
 K("EMat_SolidDynamicLinear_Tri2D(later)", "m:s %s, l:s %s, rho:s M L-3, g:v2 L T-2, t:s T, ga:s, be:s, u:n3v2 L, v:n3v2 L T-1, a:n3v2 L T-2, c:n3p2 L, >r:n3x2v2 M T-2, >e:n3n3x2v2v2 M L-1" % (ST, ST), "  EMat_SolidDynamicLinear_Tri2D(OA(r,2),OC(e,3,2,2),m,l,rho,g[0],g[1],t,ga,be,CA(u,2),CA(v,2),CA(a,2),CA(c,2),false);"),
 K("EMat_SolidStaticLinear_Tri2D", "m:s %s, l:s %s, rho:s M L-3, g:v2 L T-2, u:n3v2 L, c:n3p2 L, >r:n3x2v2 M T-2, >e:n3n3x2v2v2 %s" % (ST, ST, ST), "  EMat_SolidStaticLinear_Tri2D(OA(r,2),OC(e,3,2,2),m,l,rho,g[0],g[1],CA(u,2),CA(c,2));"),
 K("SetEmat_LinearSolid3<4>", "l:s %s, m:s %s, d:n4v3 L-1, w:s L3, >e:n4n4v3v3 M T-2" % (ST, ST), "  SetEmat_LinearSolid3<4>(OC(e,4,3,3),l,m,CA(d,3),w);"),
]))
VA = lambda n, p, k: "CVec3d %s[%d]={%s}; " % (n, k, ",".join("V3(%s+%d)" % (p, 3 * i) for i in range(k)))
PUTV = lambda o, x, k: " ".join("put3(%s+%d,%s[%d]);" % (o, 3 * i, x, i) for i in range(k))
# ---- fluid: row/column of the mixed (velocity, pressure) system
VI = "M L-1 T-1"
for D, nn in ((2, 3), (3, 4)):
    ax = "xyz"[:D]
    LD = "L%d" % D                                    # measure of the element
    FR = "M L%d T-2" % (D - 2)                        # momentum residual per element
    row = [(a, FR) for a in ax] + [("", "L%d T-1" % D)]
    col_s = [(a, "L-1 T") for a in ax] + [("", "M-1 L T2")]
    col_d = [(a, "L-1 T2") for a in ax] + [("", "M-1 L T3")]
    vp = [(a, "L T-1") for a in ax] + [("", ST)]
    ap = [(a, "L T-2") for a in ax] + [("", ST + " T-1")]
    g = ",".join("g[%d]" % i for i in range(D))
    X = "x%d" % D
    E4 = "OC(e,%d,%d,%d)" % (nn, D + 1, D + 1)
    p = dict(n=nn, D=D, X=X, VI=VI, g=g, E4=E4, d1=D + 1)
    mk = lambda name, par, body, **k: K(name, par % dict(p, **k), body % dict(p, **k))
    S2, S3 = [], []
    stat = "EMat_Stokes2D_Static_P1" if D == 2 else "MakeMat_Stokes3D_Static_P1"
    dyn = "EMat_Stokes2D_Dynamic_P1" if D == 2 else "MakeMat_Stokes3D_Dynamic_P1"
    ns = "EMat_NavierStokes2D_Dynamic_P1" if D == 2 else "MakeMat_NavierStokes3D_Dynamic_P1"
    GROUPS.append((["fem_stokes.h"], [
     K(stat, "m:s %(VI)s, g:v%(D)d M L-2 T-2, c:n%(n)dp%(D)d L, u:n%(n)dU, >e:n%(n)dn%(n)d%(X)sRC, >r:n%(n)d%(X)sR" % p,
       ("  %(f)s(m,%(g)s,CA(c,%(D)d),CA(u,%(d1)d),%(E4)s,OA(r,%(d1)d));" % dict(p, f=stat)), mix={"R": row, "C": col_s, "U": vp}, skip=["root"]),
     K(dyn, "m:s %(VI)s, rho:s M L-3, g:v%(D)d M L-2 T-2, t:s T, ga:s, c:n%(n)dp%(D)d L, u:n%(n)dU, a:n%(n)dA, >e:n%(n)dn%(n)d%(X)sRC, >r:n%(n)d%(X)sR" % p,
       ("  %(f)s(m,rho,%(g)s,t,ga,CA(c,%(D)d),CA(u,%(d1)d),CA(a,%(d1)d),%(E4)s,OA(r,%(d1)d));" % dict(p, f=dyn)), mix={"R": row, "C": col_d, "U": vp, "A": ap}, skip=["root"]),
    ]))
    GROUPS.append((["fem_navierstokes.h"], [
     K(ns, "m:s %(VI)s, rho:s M L-3, g:v%(D)d L T-2, t:s T, ga:s, c:n%(n)dp%(D)d L, u:n%(n)dU, a:n%(n)dA, >e:n%(n)dn%(n)d%(X)sRC, >r:n%(n)d%(X)sR" % p,
       ("  %(f)s(m,rho,%(g)s,t,ga,CA(c,%(D)d),CA(u,%(d1)d),CA(a,%(d1)d),%(E4)s,OA(r,%(d1)d));" % dict(p, f=ns)), mix={"R": row, "C": col_d, "U": vp, "A": ap}, skip=["root"]),
    ]))
# ---- rods, edges, shells
GROUPS.append((["fem_distance3.h", "vec3.h", "mat3.h"], [
 K("WdWddW_SquareLengthLineseg3D", "s:s M T-2, p:n2p3 L, l:s L, >w:n2v3 M L T-2, >h:n2n2v3v3 M T-2",
   "  " + VA("P", "p", 2) + "CVec3d dw[2]; CMat3d dd[2][2]; double W=WdWddW_SquareLengthLineseg3D(dw,dd,s,P,l); " + PUTV("w", "dw", 2) + " for(int i=0;i<4;++i){put9(h+9*i,dd[i/2][i%2].p_);} return W;", ret="s M L2 T-2"),
 K("CdC_SquareLengthLineseg3D", "p:n2p3 L, l:s L, >c:s L, >d:n2v3", "  CdC_SquareLengthLineseg3D(*c,OA(d,3),CA(p,3),l);"),
 K("CdC_LengthTriEdges23(world)", "P:n3n2 L, p:n3p3 L, >c:n3 L, >d:n3n3v3", "  CdC_LengthTriEdges23(c,OA(d,9),CA(P,2),CA(p,3));"),
 K("CdC_LengthTriEdges23(rest)", "P:n3p2 L, p:n3n3 L, >c:n3 L, >d:n3n3n3", "  CdC_LengthTriEdges23(c,OA(d,9),CA(P,2),CA(p,3));"),
 K("CdC_LengthTetEdges(world)", "P:n4n3 L, p:n4p3 L, >c:n6 L, >d:n6n4v3", "  CdC_LengthTetEdges(c,OA(d,12),CA(P,3),CA(p,3));"),
 K("CdC_LengthTetEdges(rest)", "P:n4p3 L, p:n4n3 L, >c:n6 L, >d:n6n4n3", "  CdC_LengthTetEdges(c,OA(d,12),CA(P,3),CA(p,3));"),
]))
GROUPS.append((["fem_rod2.h"], [
 K("WdWddW_Rod2", "p:n3p2 L, l:n2 L, a:s M, b:s M, c:s M L2, >w:s M L2, >d:n3v2 M L, >h:n3n3v2v2 M", "  WdWddW_Rod2(*w,OA(d,2),OC(h,3,2,2),CA(p,2),l,a,b,c);"),
]))
GROUPS.append((["fem_rod3_straight.h", "vec3.h", "mat3.h"], [
 K("CdC_Rod3BendStraight", "p:n3p3 L, >c:a3, >d:a3n3v3 L-1", "  CdC_Rod3BendStraight(c,OB(d,3,3),CA(p,3));"),
 K("WdWddW_Rod3BendStraight", "p:n3p3 L, >w:n3v3 L-1, >h:n3n3v3v3 L-2",
   "  " + VA("P", "p", 3) + "CVec3d dw[3]; CMat3d dd[3][3]; double W=WdWddW_Rod3BendStraight(dw,dd,P); " + PUTV("w", "dw", 3) + " for(int i=0;i<9;++i){put9(h+9*i,dd[i/3][i%3].p_);} return W;", ret="s"),
]))
RODOUT = "CVec3d dp[3]; double dt[2]; CMat3d pp[3][3]; CVec3d tp[2][3]; double tt[2][2]; "
RODPUT = PUTV("op", "dp", 3) + " ot[0]=dt[0]; ot[1]=dt[1]; for(int i=0;i<9;++i){put9(opp+9*i,pp[i/3][i%3].p_);} for(int i=0;i<6;++i){put3(otp+3*i,tp[i/3][i%3]);} for(int i=0;i<4;++i){ott[i]=tt[i/2][i%2];} return W;"
GROUPS.append((["fem_rod3_darboux.h", "vec3.h", "mat3.h"], [
 K("RodFrameTrans", "s:v3, v:v3 L, u:v3 L, t:x3, >o:n2v3, >z:a3", "  CVec3d f[3]; RodFrameTrans(f,V3(s),V3(v),V3(u),t); put3(o,f[0]); put3(z,f[1]); put3(o+3,f[2]);", skip=["degen", "parity"]),
 K("WdWddW_DotFrame", "p:n3p3 L, s:n2v3, f:n3, >op:n3v3 L-1, >ot:n2x3, >opp:n3n3v3v3 L-2, >otp:n2n3x3v3 L-1, >ott:n2n2",
   "  " + VA("P", "p", 3) + VA("S", "s", 2) + RODOUT + "double W=WdWddW_DotFrame(dp,dt,pp,tp,tt,P,S,f); " + RODPUT, ret="s", skip=["parity"]),
 K("Darboux_Rod", "p:n3p3 L, s:n2v3, >o:D", "  " + VA("P", "p", 3) + VA("S", "s", 2) + "put3(o,Darboux_Rod(P,S));", mix={"D": [("xyz", ""), ("", ""), ("xyz", "")]}),
 K("CdC_Rod", "p:n3p3 L, s:n2v3, >c:D, >d:Dn3v3 L-1, >t:Dx3n2", "  " + VA("P", "p", 3) + VA("S", "s", 2) + "CVec3d dd[3][3]; double dt[3][2]; CdC_Rod(c,dd,dt,P,S); for(int i=0;i<9;++i){put3(d+3*i,dd[i/3][i%3]);} for(int i=0;i<6;++i){t[i]=dt[i/2][i%2];}", mix={"D": [("xyz", ""), ("", ""), ("xyz", "")]}),
] + [
 K(f, "k:n3 M, p:n3p3 L, s:n2v3, z:D, >op:n3v3 M L-1, >ot:n2x3 M, >opp:n3n3v3v3 M L-2, >otp:n2n3x3v3 M L-1, >ott:n2n2 M",
   "  " + VA("P", "p", 3) + VA("S", "s", 2) + RODOUT + "double W=%s(dp,dt,pp,tp,tt,k,P,S,V3(z)); " % f + RODPUT, ret="s M", mix={"D": [("xyz", ""), ("", ""), ("xyz", "")]})
 for f in ("WdWddW_Rod3Exact", "WdWddW_Rod3Approx")] + [
 K("WdWddW_HairApprox", "k:n3 M, p:n3p3 L, s:n2v3, z:D, >d:n3R, >h:n3n3RR M-1", "  " + VA("P", "p", 3) + VA("S", "s", 2) + "return WdWddW_HairApprox(OA(d,4),OC(h,3,4,4),k,P,S,V3(z));", ret="s M",
   mix={"D": [("xyz", ""), ("", ""), ("xyz", "")], "R": [("x", "M L-1"), ("y", "M L-1"), ("z", "M L-1"), ("xyz", "M")]}),
]))
for tag, P, p in (("world", "n", "p"), ("rest", "p", "n")):
    W, R = ("v", "n") if tag == "world" else ("n", "v")
    f = dict(P=P, p=p, W=W, R=R)
    z = lambda s: s % f
    T = "(%s)" % tag
    GROUPS.append((["fem_quadratic_bending.h"], [
     K("CdC_QuadBend" + T, z("P:n4%(P)s3 L, p:n4%(p)s3 L, >c:%(W)s3, >d:%(W)s3n4%(W)s3 L-1"), "  CdC_QuadBend(c,OB(d,4,3),CA(P,3),CA(p,3));"),
     K("WdWddW_Bend" + T, z("P:n4%(P)s3 L, p:n4%(p)s3 L, s:s M, >w:s M, >d:n4%(W)s3 M L-1, >h:n4n4%(W)s3%(W)s3 M L-2"), "  WdWddW_Bend(*w,OA(d,3),OC(h,4,3,3),CA(P,3),CA(p,3),s);"),
     K("WdWddW_QuadraticBending_Sensitivity" + T, z("P:n4%(P)s3 L, p:n4%(p)s3 L, s:s M, >k:n4n4%(W)s3%(W)s3 M L-2, >r:n4%(W)s3 M L-1, >d:n4n4%(W)s3%(R)s3 M L-2"), "  WdWddW_QuadraticBending_Sensitivity(OC(k,4,3,3),OA(r,3),OC(d,4,3,3),CA(P,3),CA(p,3),s);"),
    ]))
    ys = "n3" if tag == "world" else "y3"
    GROUPS.append((["fem_stvk.h"], [
     K("CdC_StVK" + T, z("P:n3%(P)s2 L, p:n3%(p)s3 L, >c:") + ys + z(", >d:") + ys + z("n3%(W)s3 L-1"), "  CdC_StVK(c,OA(d,9),CA(P,2),CA(p,3));"),
     K("CdC_EnergyStVK" + T, z("P:n3%(P)s2 L, p:n3%(p)s3 L, l:s M, m:s M, >c:s M L2, >d:n3%(W)s3 M L"), "  CdC_EnergyStVK(*c,d,CA(P,2),CA(p,3),l,m);", skip=["parity"] if tag == "rest" else []),
     K("WdWddW_CST" + T, z("P:n3%(P)s3 L, p:n3%(p)s3 L, l:s M, m:s M, >w:s M L2, >d:n3%(W)s3 M L, >h:n3n3%(W)s3%(W)s3 M"), "  WdWddW_CST(*w,OA(d,3),OC(h,3,3,3),CA(P,3),CA(p,3),l,m);"),
     K("WdWddW_CST_Sensitivity" + T, z("P:n3%(P)s3 L, p:n3%(p)s3 L, l:s M, m:s M, >k:n3n3%(W)s3%(W)s3 M, >r:n3%(W)s3 M L, >d:n3n3%(W)s3%(R)s3 M"), "  WdWddW_CST_Sensitivity(OC(k,3,3,3),OA(r,3),OC(d,3,3,3),l,m,CA(P,3),CA(p,3));"),
    ]))
    GROUPS.append((["fem_mips.h"], [
     K("WdWddW_MIPS" + T, z("P:n3%(P)s3 A, p:n3%(p)s3 L, >w:s, >d:n3%(W)s3 L-1, >h:n3n3%(W)s3%(W)s3 L-2"), "  WdWddW_MIPS(*w,OA(d,3),OC(h,3,3,3),CA(p,3),CA(P,3));", skip=["unit"]),
    ]))
    GROUPS.append((["fem_solidhyper.h"], [
     K("AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex", "a:s %s, b:s %s, P:n8p3 L, u:n8v3 L, >+w:x3 M L2 T-2, >+d:n8x3v3 M L T-2, >+h:n8n8x3v3v3 M T-2, >+v:x3 L3" % (ST, ST), "  AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(*w,OA(d,3),OC(h,8,3,3),*v,a,b,CA(P,3),CA(u,3),0);"),
     K("AddWdWddW_Solid3Compression_Hex", "a:s %s, P:n8p3 L, u:n8v3 L, >+w:x3 M L2 T-2, >+d:n8x3v3 M L T-2, >+h:n8n8x3v3v3 M T-2, >+v:x3 L3" % ST, "  AddWdWddW_Solid3Compression_Hex(*w,OA(d,3),OC(h,8,3,3),*v,a,CA(P,3),CA(u,3),0);"),
    ]) if tag == "rest" else ([], []))
GROUPS[:] = [g for g in GROUPS if g[1]]
GROUPS.append((["fem_discreteshell.h", "vec3.h"], [
 K("CdC_DiscreteShell", "a:p3 L, b:p3 L, c:p3 L, d:p3 L, >o:s, >g:n4v3 L-1", "  CVec3d q[4]; CdC_DiscreteShell(*o,q,%s); " % P4 + PUTV("g", "q", 4)),
]))
GROUPS.append((["fem_dkt.h"], [
 K("MakeCurvetureDKT", "a:p2 L, b:p2 L, c:p2 L, l:s, m:s, >p:y3n3 L-2, >q:y3n3S", "  MakeCurvetureDKT(OA(p,3),OB(q,3,2),a,b,c,l,m);", mix={"S": [("y", "L-1"), ("x", "L-1")]}),
 K("MakeMat_PlateBendingDKT", "E:s %s, v:s, t:s L, c:n3p2 L, w:n3 L, u:n3S, >a:n3n3x2 M T-2, >b:n3n3x2S M L T-2, >d:n3n3x2S M L T-2, >f:n3n3x2SS M L2 T-2, >g:n3x2 M L T-2, >h:n3x2S M L2 T-2" % ST,
   "  MakeMat_PlateBendingDKT(OA(a,3),OB(b,3,2),OB(d,3,2),OC(f,3,2,2),g,OA(h,2),E,v,t,CA(c,2),w,CA(u,2));", mix={"S": [("y", ""), ("x", "")]}),
]))
GROUPS.append((["fem_mitc3.h"], [
 K("WdWddW_PlateBendingMITC3", "c:n3p2 L, u:n3D, t:s L, l:s %s, m:s %s, >+w:x2 M L2 T-2, >+d:n3x2B M L2 T-2, >+h:n3n3x2BB M L2 T-2" % (ST, ST), "  WdWddW_PlateBendingMITC3(*w,OA(d,3),OC(h,3,3,3),CA(c,2),CA(u,3),t,l,m);",
   mix={"D": [("", "L"), ("y", ""), ("x", "")], "B": [("", "L-1"), ("y", ""), ("x", "")]}),
]))
GROUPS.append((["fem_beam2.h"], [
 K("dWddW_Beam2", "k:s M L2, a:s M, x:n2p2 L, u:n2D, >d:n2B M L, >h:n2n2BB M L", "  dWddW_Beam2<double>(OA(d,3),OC(h,2,3,3),k,a,CA(x,2),CA(u,3));",
   mix={"D": [("x", "L"), ("y", "L"), ("xy", "")], "B": [("x", "L-1"), ("y", "L-1"), ("xy", "")]}),
]))
GROUPS.append((["femcloth.h", "vec3.h"], [
 K("WdWddW_Contact", "c:p3 L, n:v3, o:p3 L, s:s M, e:s L, >w:s M L2, >d:v3 M L, >h:v3v3 M",
   "  struct P: public CInput_Contact { const double *n, *o; double penetrationNormal(double &a,double &b,double &c,double x,double y,double z) const final { a=n[0];b=n[1];c=n[2]; return (o[0]-x)*n[0]+(o[1]-y)*n[1]+(o[2]-z)*n[2]; } } q; q.n=n; q.o=o; WdWddW_Contact(*w,d,OA(h,3),c,s,e,q);"),
]))
GROUPS.append((["pbd_geo3.h"], [
 K("PBD_Update_Const3", "<>x:n3v3 L, m:n3 M, c:n3 L, d:n3n3v3, r:s", "  const unsigned int ip[3]={0,1,2}; PBD_Update_Const3(x,3,3,m,c,d,ip,r);"),
]))
GROUPS.append((["geosolidelm_v3.h", "vec3.h"], [
 K("positionBarycentricCoord_Pyramid", "r:n3, a:n5p3 L, >o:p3 L", "  put3(o,positionBarycentricCoord_Pyramid(r[0],r[1],r[2],V3(a),V3(a+3),V3(a+6),V3(a+9),V3(a+12)));"),
 K("positionBarycentricCoord_Wedge", "r:n3, a:n6p3 L, >o:p3 L", "  put3(o,positionBarycentricCoord_Wedge(r[0],r[1],r[2],V3(a),V3(a+3),V3(a+6),V3(a+9),V3(a+12),V3(a+15)));"),
 K("barycentricCoord_Origin_Pyramid", "a:n5v3 L, >r:n3", "  barycentricCoord_Origin_Pyramid(r[0],r[1],r[2],V3(a),V3(a+3),V3(a+6),V3(a+9),V3(a+12));", skip=["unset"]),
 K("barycentricCoord_Origin_Wedge", "a:n6v3 L, >r:n3", "  barycentricCoord_Origin_Wedge(r[0],r[1],r[2],V3(a),V3(a+3),V3(a+6),V3(a+9),V3(a+12),V3(a+15));", skip=["unset"]),
 K("Volume_Pyramid", "a:n5p3 L", "  return Volume_Pyramid(V3(a),V3(a+3),V3(a+6),V3(a+9),V3(a+12));", ret="x3 L3"),
 K("Volume_Wedge", "a:n6p3 L", "  return Volume_Wedge(V3(a),V3(a+3),V3(a+6),V3(a+9),V3(a+12),V3(a+15));", ret="x3 L3"),
]))
