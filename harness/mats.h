// helpers making sparse matrices
#pragma once
#include "nla.h"
namespace mats {
template <class M> std::unique_ptr<M> fresh(uint32 r, uint32 c, uint32 room);
template <> inline std::unique_ptr<nla3d::math::SparseMatrix> fresh(uint32 r, uint32 c, uint32 room) { return std::unique_ptr<nla3d::math::SparseMatrix>(new nla3d::math::SparseMatrix(r, c, room)); }
template <> inline std::unique_ptr<nla3d::math::SparseSymMatrix> fresh(uint32 r, uint32, uint32 room) { return std::unique_ptr<nla3d::math::SparseSymMatrix>(new nla3d::math::SparseSymMatrix(r, room)); }
}
