// explicit instantiation witness: every member of every public class template for its documented scalar types
#include <complex>
using namespace delfem2;
#define FD(C) template class C<float>; template class C<double>;
FD(delfem2::CVec2) FD(delfem2::CVec3) FD(delfem2::CMat2) FD(delfem2::CMat3) FD(delfem2::CMat4) FD(delfem2::CQuat)
template class FdmArray2<double>;
FD(delfem2::CGizmo_Rotation) FD(delfem2::CGizmo_Transl) FD(delfem2::CGizmo_Affine)
template class delfem2::CGrid3<int>; template class delfem2::CGrid3<double>;
template class delfem2::CMatrixSparse<float>; template class delfem2::CMatrixSparse<double>; template class delfem2::CMatrixSparse<std::complex<double>>;
template class delfem2::CPreconditionerILU<double>; template class delfem2::CPreconditionerILU<std::complex<double>>;
template class delfem2::BlockPentaDiagonalMatrix<1>; template class delfem2::BlockPentaDiagonalMatrix<2>; template class delfem2::BlockPentaDiagonalMatrix<3>;
template class delfem2::LinearSystemSolver_BlockPentaDiagonal<2>; template class delfem2::LinearSystemSolver_BlockPentaDiagonal<3>;
template class delfem2::BlockTriDiagonalMatrix<1>; template class delfem2::BlockTriDiagonalMatrix<2>; template class delfem2::BlockTriDiagonalMatrix<4>;
FD(delfem2::CPlane) FD(delfem2::CCylinder) FD(delfem2::CBox)
template class delfem2::CSphere<float>; template class delfem2::CTorus<float>;
FD(delfem2::PointOnSurfaceMesh) FD(delfem2::PointInSolidMesh)
FD(delfem2::CBoundingBox2) FD(delfem2::CBV3_AABB) FD(delfem2::CBV3_Sphere)
template class delfem2::CLeafVolumeMaker_Mesh<CBV3_AABB<double>,double>; template class delfem2::CLeafVolumeMaker_Mesh<CBV3_Sphere<float>,float>;
template class delfem2::CLeafVolumeMaker_Point<CBV3_AABB<double>,double>; template class delfem2::CLeafVolumeMaker_Point<CBV3_Sphere<float>,float>;
template class delfem2::CLeafVolumeMaker_DynamicTriangle<CBV3_AABB<double>,double>;
template class delfem2::TensorData2<double>; template class delfem2::TensorData3<double>; template class delfem2::TensorData4<double>; template class delfem2::TensorData5<double>;
template class ViewAsArray2D<double>; template class delfem2::ViewAsVectorX<double>;
template class delfem2::ViewTensor3<double>; template class delfem2::ViewTensor4<double>; template class delfem2::ViewTensor4Const<double>; template class delfem2::ViewTensor5<double>; template class delfem2::ViewTensor5Const<double>;
template class delfem2::CBVH_MeshTri3D<CBV3_Sphere<double>,double>;
template class delfem2::CInfoNearest<double>; template class delfem2::CIntersectTriPair<double>;
