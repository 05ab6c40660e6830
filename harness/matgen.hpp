// Matrices for the exhaustive exploration of the matrix operations.
#pragma once
#include "vecgen.hpp"
#include <nytl/mat.hpp>

namespace gen {

// The set of matrices of a size: all over a (rotated) alphabet when there are at most max of
// them, otherwise all single-entry matrices and patterns of the alphabet.
template<std::size_t R, std::size_t C, typename T> struct Mats {
	unsigned k, n, rot;
	bool full;
	Mats(unsigned max, unsigned rotation) : rot(rotation) {
		k = perComponent(R * C, max);
		full = ipow(k, R * C) <= max;
		n = full ? ipow(k, R * C) : R * C + 56;
	}
	nytl::Mat<R, C, T> get(unsigned idx) const {
		nytl::Mat<R, C, T> m {};
		if(full) {
			for(auto i = 0u; i < R * C; ++i) {
				m[i / C][i % C] = exact<T>(idx % k + rot);
				idx /= k;
			}
		} else if(idx < R * C) {
			m[idx / C][idx % C] = exact<T>(rot == 3 ? 0 : rot);
		} else {
			idx -= R * C;
			auto stride = idx / 8 + 1, off = idx % 8;
			for(auto i = 0u; i < R * C; ++i) m[i / C][i % C] = exact<T>(i * stride + off + rot + (i * i) / 5);
		}
		return m;
	}
};

template<typename M> mc::u64 hash(const M& m) {
	mc::u64 h = 5;
	for(auto r = 0u; r < M::rows(); ++r) for(auto c = 0u; c < M::cols(); ++c) { double d = m[r][c]; h = mc::comb(h, mc::hashBytes(&d, 8)); }
	return h;
}

} // namespace gen
