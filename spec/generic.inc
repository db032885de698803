// generic functions of the core headers, instantiated for the library's own vector/matrix types
// (a generic body is type-checked, and analysed with resolved types, only where it is instantiated)
#include <fstream>
namespace dfm2_generic {
using V2 = delfem2::CVec2<double>; using V3 = delfem2::CVec3<double>;
using V2f = delfem2::CVec2<float>; using V3f = delfem2::CVec3<float>;
using MS = delfem2::CMatrixSparse<double>; using MC = delfem2::CMatrixSparse<std::complex<double>>;
using PC = delfem2::CPreconditionerILU<double>; using PCC = delfem2::CPreconditionerILU<std::complex<double>>;
using BBS = delfem2::CBV3_Sphere<double>; using BBA = delfem2::CBV3_AABB<double>;
using cd = std::complex<double>;
#define U(...) { auto *p_ = &__VA_ARGS__; (void)p_; }
#define U2(F) U(F<V2>) U(F<V3>)
using namespace delfem2;
inline void use() {
  U(delfem2::TriGauss<double>) U(delfem2::TriGauss<float>) U(delfem2::TetGauss<double>) U(delfem2::TetGauss<float>)
  U(kPositionWeight_GaussianQuadrature<double>) U(kPositionWeight_GaussianQuadrature<float>) U(kPositionWeight_GaussKronrodQuadrature<double>) U(kPositionWeight_GaussKronrodQuadrature<float>)
  U(ComputeMeanValueCoordinateReduced<V3>) { std::vector<double> a; V2 p; std::vector<V2> q; MeanValueCoordinate_Polygon2(a, p, q); MeanValueCoordinate_Polygon2<V2>(a.data(), 0., 0., a.data(), 0); MeanValueCoordinate_Polygon2<V2>(a, std::array<double,2>{0,0}); } U(MeanValueCoordinate_Triangle<V3, double>) U(ComputeMeanValueCoordinate<V3>)
  U(ColorRGB_Int<float>) U(ColorRGB_Int<double>)
  U(CdC_ScreenCoordinate<V3, double>) U(ProjectionCameraWithCalibration<double>) U(ProjectionCameraWithCalibration<float>)
  { CMeshDynTri2D m; std::vector<double> a; std::vector<float> b; std::vector<unsigned int> t; m.Export_StlVectors(a, t); m.Export_StlVectors(b, t); }
  U(MergeLinSys_Helmholtz_MeshTri2D<MC>) U(MergeLinSys_SommerfeltRadiationBC_Polyline2D<MC>)
  U(MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D<MS>) U(MergeLinSys_NavierStokes2D<MS>) U(MergeLinSys_NavierStokes3D_Dynamic<MS>)
  U(MergeLinSys_Poission_MeshTet3D<MS>) U(MergeLinSys_Diffusion_MeshTri2D<MS>) U(MergeLinSys_Diffusion_MeshTet3D<MS>) U(MergeLinSys_Poission_MeshTri2D<MS, double, double>)
  U(MergeLinSys_SolidLinear_Static_MeshTri2D<MS, double, double>) U(MergeLinSys_SolidLinear_Static_MeshTet3D<MS>) U(MergeLinSys_LinearSolid3D_Static_Q1<MS>)
  U(MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D<MS>) U(MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D<MS>) U(MergeLinSys_SolidLinear_BEuler_MeshTet3D<MS>) U(MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D<MS>)
  U(MergeLinSys_StokesDynamic2D<MS>) U(MergeLinSys_Stokes3D_Static<MS>) U(MergeLinSys_Stokes3D_Dynamic<MS>) U(MergeLinSys_StokesStatic2D<MS>)
  U(FetchData<3, 2, double>) U(FetchData<4, 3, double>) U(WriteParam<double>)
  U(IsContact_Orgin_AabbOfPoint3<V3>) U(IsContact_Orgin_AabbOfPoint4<V3>) U(IsContact_Orgin_AabbOfPoint5<V3>) U(IsContact_Orgin_AabbOfPoint6<V3>)
  U(ConvexHull2<V2>) { std::vector<unsigned int> t; std::vector<V3> p; ConvexHull3(t, p); }
  U(getCubicBezierCurve<V3>) U(Nearest_CubicBezierCurve_Strum<V2>) U(Nearest_CubicBezierCurve_Strum<V3>)
  U2(AABB_CubicBezierCurve) U2(Split_CubicBezierCurve) U2(Length_CubicBezierCurve_QuadratureSubdivision)
  U(CoefficientsOfOpenUniformCubicBSpline<double>) U2(Sample_CubicBsplineCurve) U2(Polyline_CubicBSplineCurve) U2(Sample_CatmullRomSplineCurve) U2(Polyline_BezierCubic) U2(Polyline_CatmullRomSplineCurve)
  U(Sample_BsplineCurve<V2, 3>) U(Sample_BsplineCurve<V2, 4>) U(Sample_BsplineDerivative<V2, 3>) U(Sample_BsplineDerivative<V2, 4>) U(DeBoorBSpline<V3>) U(SampleBSpline<V3>) U(Sample_BsplineCurveSegment<V2, 3>) U(Sample_BsplineCurveSegment<V2, 4>)
  U(AABB_QuadraticCurve<V2>) U(WindingNumber_QuadraticCurve2<V2>) U2(Polyline_BezierQuadratic) U2(Length_QuadraticBezierCurve_Quadrature) U2(Nearest_QuadraticBezierCurve_Sturm) U2(AABB_QuadraticBezierCurve) U2(Split_QuadraticBezierCurve) U2(Length_QuadraticBezierCurve_QuadratureSubdiv)
  U(CoefficientsOfOpenUniformBSpline_Quadratic<double>) U2(Sample_QuadraticBsplineCurve) U2(Tangent_QuadraticBsplineCurve) U2(Nearest_QuadraticBSplineCurve) U2(Nearest_Origin_QuadraticCurve)
  U(Distance_Edge2_Edge2<double>) U(Mat3_IrotLineSeg<V3, double>)
  U(Penetration_Points2_Points2_Epa<V2>) U(IsIntersect_Points2_Points2_Sat<V2>) U(IsIntersect_Points2_Points2_Gjk<V2>)
  U(IsIntersect_Points3_Points3_Gjk<V3>) U(Penetration_Points3_Points3_Epa<V3>) U(IsIntersect_Points3_Points3_Sat<V3>)
  { double d; V3 v; Nearest_Line3_Point3(d, v, v, v); Nearest_Plane3_Point3(v, v, v); }
  U2(FindNearestPointParameter_Line_Point)
  U(Polygon_Invert<double>) U(XY_Polygon<double>) U(Area_Polygon<double>) U(Polygon_Resample_Polygon<double>)
  U(Area_Polyline2<V2>) U2(AABB_Polyline) U2(Sample_Polyline) U2(Tangent_Polyline) U2(Nearest_Polyline) U2(Smooth_Polyline) U2(ArcLengthPointInPolyline) U(WindingNumber_Polyline2<V2>) U2(FindNearestPointInPoints) U2(Length_Polyline)
  U(QuadBilinear<double>) U(getPointSurfaceBezierCubic<V3>) U(getPointCoonsQuad_CubicBezier<V3>) U(getCubicBezierSurface<V3>) U(getPointCoonsQuad_CubicBezierEdge<V3>)
  U(positionBarycentricCoord_Pyramid<double>) U(positionBarycentricCoord_Wedge<double>) U(iteration_barycentricCoord_Origin_Solid<double>) U(barycentricCoord_Origin_Pyramid<double>) U(barycentricCoord_Origin_Wedge<double>) U(Volume_Pyramid<double>) U(Volume_Wedge<double>)
  U(Solve_RodHair<LinearSystemSolver_BlockPentaDiagonal<4>>)
  { MS m; std::vector<unsigned int> b; unsigned int i[3]; double e[3][3]; Merge<3, 3, double>(m, i, i, e, b); }
  { LinearSystemSolver_BlockPentaDiagonal<2> m; unsigned int i[3]; double e[3][3][2][2]; m.template Merge<3, 3, 2, 2>(i, i, e); }
  { LinearSystemSolver_BlockSparseILU m; unsigned int i[3]; double e[3][3][3][3]; m.template Merge<3, 3, 3, 3>(i, i, e); }
  { CMat2<double> m, u, v, s; polar_decomposition(u, s, m); svd(u, s, v, m); m = 2.0 * m; m.cast<float>(); }
  { CMat3<double> m; std::ofstream o; std::ifstream i; o << m; i >> m; CVec2<double> v; o << v; i >> v; CQuat<double> q; o << q; q.cast<float>(); PointOnSurfaceMesh<double> p; o << p; i >> p; std::vector<V3> vv; i >> vv; v.cast<float>(); rotate(v, 1.0); rotate90(v); }
  { double m[9], v[3]; Mat3_Identity(1.0); Mat3_RotMatFromRodriguesVector<V3, double>(V3()); Mat3_RotMatFromConformalRotationVector<V3, double>(V3()); CMat3<double> M; Vec3_SpinVectorFromMat3<CMat3<double>, double>(M); AxisAngleVectorCartesian_Mat3(v, m); AxisAngleVectorCRV_Mat3(v, m); float mf[9]; Copy_Mat3(mf, m); Mat3_From3Bases<V3, double>(V3(), V3(), V3()); Mat3_NormalProjection<V3, double>(V3()); Mat3_Mirror<V3, double>(V3()); }
  { double m[16], m3[9], v[3]; float f[16]; Inverse_Mat4(m); Inverse_Mat4(f); Print_Mat4(m); Print_Mat4(CMat4<double>()); Print_Mat4Transp(m); Mat4_Mat3(m, m3); Transpose_Mat4(m, m); Mat4_AffineTrans_RotTransl(m, m3, v); RayFromInverseMvpMatrix(m, 1, 1, 1, 1); RayFromInverseMvpMatrix(f, 1, 1, 1, 1); }
  U(Mesh_ArrowOcta<double, unsigned int>) U(UnifySeparateIndexing_PosTex<double>) U(Mesh_RigBones_Octahedron<double, unsigned int>) U(Mesh_RigBones_Octahedron<float, unsigned int>)
  U(SturmSequenceOfPolynomial<4>) U(RootInterval_SturmSequence<4>) U(RootsInRange_QuadraticPolynomial<double>) U(RootsOfPolynomial<4>) U(RootsOfPolynomial<6>) U(SturmNumber<4>)
  { double q[4], v[3]; QuatConjVec(v, q, v); Mult_QuatQuat(q, q); Inverse_Quat(q, q); Quat_Bryant(1.0, 1.0, 1.0); }
  U(SampleHemisphereZupUniform<double>) U(SampleHemisphereZupCos<double>) U(SampleHemisphereNormalCos<V3, double>) U(MyERand48<double>) U(RandomVec2<double>) U(SampleTent<double>) U(RandGaussVec3<double>) U(RandomVec<3, double>) U(Fill2dArrayWithRandomValue<2, 3, double>)
  U(Nearest_Point_MeshTetFace3D<double>)
  { V3 v; std::vector<double> x; std::vector<int> t; Nearest_Point_MeshTet3D(v, x, t); Nearest_Point_MeshTet3D(v, 0, x, t, t); }
  { double p[3]; CBV3_Sphere<double> s; s.IsIntersectLine(p, p); CIsBV_IntersectLine<BBS, double> a(p, p); std::vector<BBS> bb; a.IsTrue(0, bb); CIsBV_IncludePoint<BBS> b(p); b.IsTrue(0, bb); CIsBV_InsideRange<BBS> c(p, 0, 1); c.IsTrue(0, bb); }
  U(BVH_Range_DistToNearestPoint<BBS>) U(BVH_IndPoint_NearestPoint<BBS, double>)
  { std::vector<V2> p2; std::vector<V3> p3; auto *k = ConstructKDT(p2); auto *l = ConstructKDT(p3); SearchNearstPoint(l, V3()); std::vector<unsigned int> t; KDTTriangle<V3> kt(p3, t); kt.SearchNearest(V3()); }
  { std::vector<CIntersectTriPair<double>> a; std::vector<double> x; std::vector<unsigned int> t; std::vector<CNodeBVH2> n; std::vector<BBS> b; GetIntersectTriPairs(a, x, t, 0, 0, n, b); GetIntersectTriPairs(a, x, t, 0, n, b); }
  U(Project_PointsIncludedInBVH_Outside<BBS, double>) U(ConstructBVHTriangleMeshMortonCode<BBS>) U(ConstructBVHTriangleMeshMortonCode<BBA>) U(Intersection_Ray3_Tri3_Bvh<BBS>) U(Intersection_ImageRay_TriMesh3<BBS>) U(BuildBVH_MeshTri3D_Morton<BBA>)
  parallel_for(3, [](int) {}, 1); parallel_for(3, 3, [](int, int) {}, 1); parallel_for(3u, [](unsigned int) {});
  { V2 v, w; TriHeight(v, v, v); SquareCircumradius(v, v, v); CenterCircumcircle(v, v, v, w); std::vector<V2> p; Area_Tri(0, 1, 2, p); unsigned int t[3]; double m[9]; MakeMassMatrixTri(m, 1.0, t, p); Cross2(v, w); }
  { V3 v; const V3 w; v(1) = w(2); v.SetVector(1, 2, 3); std::vector<double> a; v.push_back_to_vector(a); v == w; v != w; V3 u(a); }
  { double a[3]; AverageTwo3(a, a, a); AverageFour3(a, a, a, a, a); Add3(a, a); SquareLength3(a); }
  U(Solve_CG_Complex<double, MC>) U(Solve_BiCGSTAB_Complex<double, MC>) U(Solve_PBiCGStab<double, MS, PC>) U(Solve_PBiCGStab_Complex<double, MC, PCC>) U(Solve_PCG_Complex<double, MC, PCC>) U(Solve_PCOCG<double, MC, PCC>)
  { struct Proc { bool AddPoint(unsigned int, const std::vector<double> &, const std::vector<unsigned int> &) { return true; } }; }
}
#undef U
#undef U2
}
