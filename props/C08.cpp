// C08: matrix algebra on every small matrix and every short sequence of operations.
#include "util.h"
typedef std::vector<std::vector<double>> MM;
static MM mm(int r, int c, double v = 0) { return MM(r, std::vector<double>(c, v)); }
static double det(const MM& m)
{
	int n = m.size();
	if (n == 1) return m[0][0];
	// expansion over permutations
	std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
	double s = 0;
	do { double q = 1; int inv = 0; for (int i = 0; i < n; ++i) { q *= m[i][p[i]]; for (int j = 0; j < i; ++j) inv += p[j] > p[i]; } s += inv & 1 ? -q : q; } while (std::next_permutation(p.begin(), p.end()));
	return s;
}
template <class T> static matrix<T> lib(const MM& m)
{
	int r = m.size(), c = r ? m[0].size() : 0;
	std::vector<T> v; for (auto& x : m) for (double y : x) v.push_back((T)y);
	return matrix<T>(r, c, v);
}
template <class T> static std::string show(const matrix<T>& m)
{
	std::string s = S("%dx%d[", m.rows(), m.columns());
	for (int i = 0; i < m.rows() && i < 5; ++i) { if (i) s += ";"; for (int j = 0; j < m.columns() && j < 5; ++j) s += S("%s%g", j ? "," : "", (double)m(i, j)); }
	return s + "]";
}
static std::string show(const MM& m)
{
	std::string s = S("%zux%zu[", m.size(), m.empty() ? 0 : m[0].size());
	for (size_t i = 0; i < m.size(); ++i) { if (i) s += ";"; for (size_t j = 0; j < m[i].size(); ++j) s += S("%s%g", j ? "," : "", m[i][j]); }
	return s + "]";
}
template <class T> static MM values_of(const matrix<T>& a) { MM m = mm(a.rows(), a.columns()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.columns(); ++j) m[i][j] = a(i, j); return m; }
template <class T> static bool same(const matrix<T>& a, const MM& b, double tol = 0)
{
	if (a.rows() != (int)b.size() || (a.rows() && a.columns() != (int)b[0].size()) || a.size() != a.rows() * a.columns()) return false;
	auto v = a.values();
	for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.columns(); ++j) if (!(fabs((double)a(i, j) - b[i][j]) <= tol * std::max(1.0, fabs(b[i][j]))) || v[i][j] != a(i, j)) return false;
	for (auto& r : v) if ((int)r.size() != a.columns()) return false;
	return (int)v.size() == a.rows() && a == lib<T>(b.empty() ? MM() : values_of<T>(a));
}
static MM mulm(const MM& a, const MM& b) { MM r = mm(a.size(), b[0].size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b[0].size(); ++j) for (size_t k = 0; k < b.size(); ++k) r[i][j] += a[i][k] * b[k][j]; return r; }
static MM tr(const MM& a) { MM r = mm(a[0].size(), a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[j][i] = a[i][j]; return r; }
static uint64_t hm(const MM& m) { uint64_t h = m.size() * 31 + (m.empty() ? 0 : m[0].size()); for (auto& r : m) for (double x : r) h = mc::mix(h, mc::fbits((float)x)); return h; }

template <class T> static void square(Case& k, const MM& m, const char* ty)
{
	int n = m.size();
	matrix<T> a = lib<T>(m);
	k.eval(5); k.transition(5);
	double d = det(m);
	T gd = a.determinante();
	if (!close(gd, d, 1e-6)) k.fail(S("determinant:%s:%d", ty, n), "determinant of %s is %g, expected %g", show(m).c_str(), (double)gd, d);
	matrix<T> ad = a.adjoint(), inv = a.invert(), t = a.transpose();
	if (!same(t, tr(m))) k.fail(S("transpose:%s:%d", ty, n), "transpose of %s is %s", show(m).c_str(), show(t).c_str());
	MM A = mm(n, n);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
	{
		if (n == 1) { A[0][0] = 1; continue; }
		MM c; for (int r = 0; r < n; ++r) if (r != i) { c.push_back({}); for (int q = 0; q < n; ++q) if (q != j) c.back().push_back(m[r][q]); }
		A[j][i] = ((i + j) & 1 ? -1 : 1) * det(c);
	}
	if (!same(ad, A, 1e-6)) k.fail(S("adjoint:%s:%d", ty, n), "adjoint of %s is %s, expected %s", show(m).c_str(), show(ad).c_str(), show(A).c_str());
	if (d == 0) { if (!same(inv, m)) k.fail(S("singular:%s:%d", ty, n), "inverse of the singular %s is %s", show(m).c_str(), show(inv).c_str()); }
	else
	{
		for (auto& r : A) for (double& x : r) x /= d;
		if (!same(inv, A, 1e-5)) k.fail(S("inverse:%s:%d", ty, n), "inverse of %s is %s, expected %s", show(m).c_str(), show(inv).c_str(), show(A).c_str());
		matrix<T> id = a * inv, id2 = inv * a;
		MM I = mm(n, n); for (int i = 0; i < n; ++i) I[i][i] = 1;
		if (!same(id, I, 1e-4) || !same(id2, I, 1e-4)) k.fail(S("inverse_identity:%s:%d", ty, n), "%s times its inverse is %s", show(m).c_str(), show(id).c_str());
	}
	if (!same(a, m)) k.fail(S("pure:%s:%d", ty, n), "%s changed while its determinant, adjoint, inverse and transpose were taken", show(m).c_str());
	k.state(hm(m)); k.trace();
}
static void pair(Case& k, const MM& x, const MM& y)
{
	matrix<float> a = lib<float>(x), b = lib<float>(y);
	k.eval(5); k.transition(5);
	bool eq = x == y;
	if ((a == b) != eq) k.fail("equality", "%s == %s", show(x).c_str(), show(y).c_str());
	const matrix<float> ca = a; if ((ca == b) != eq) k.fail("equality_const", "%s == %s", show(x).c_str(), show(y).c_str());
	MM s = x, d = x;
	if (x.size() == y.size() && x[0].size() == y[0].size())
	{
		for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x[0].size(); ++j) { s[i][j] += y[i][j]; d[i][j] -= y[i][j]; }
		if (!same(a + b, s)) k.fail("plus", "%s + %s", show(x).c_str(), show(y).c_str());
		if (!same(a - b, d)) k.fail("minus", "%s - %s", show(x).c_str(), show(y).c_str());
		matrix<float> c = a; c += b; if (!same(c, s)) k.fail("plus_assign", "%s += %s", show(x).c_str(), show(y).c_str());
		matrix<float> e = a; e -= b; if (!same(e, d)) k.fail("minus_assign", "%s -= %s", show(x).c_str(), show(y).c_str());
	}
	if (x[0].size() == y.size())
	{
		MM q = mulm(x, y);
		matrix<float> c = a * b;
		if (!same(c, q)) k.fail(S("product:%zux%zux%zu", x.size(), y.size(), y[0].size()), "%s * %s is %s, expected %s", show(x).c_str(), show(y).c_str(), show(c).c_str(), show(q).c_str());
		matrix<float> e = a; e *= b; if (!same(e, q)) k.fail("product_assign", "%s *= %s is %s", show(x).c_str(), show(y).c_str(), show(e).c_str());
		if (y[0].size() == 1)
		{
			std::vector<float> v; for (auto& r : y) v.push_back((float)r[0]);
			auto w = a * v; bool ok = w.size() == x.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = w[i] == (float)q[i][0];
			if (!ok) k.fail("vector_product", "%s times the vector %s", show(x).c_str(), show(y).c_str());
		}
	}
	if (!same(a, x) || !same(b, y)) k.fail("operands", "operands %s, %s changed", show(x).c_str(), show(y).c_str());
	k.trace(); k.state(mc::mix(hm(x), hm(y)));
}
static MM decode(uint64_t ix, int r, int c, const std::vector<double>& v) { MM m = mm(r, c); for (auto& x : m) for (double& y : x) { y = v[ix % v.size()]; ix /= v.size(); } return m; }
struct MO { int kind; int a, b; };
static std::vector<MO> mops()
{
	std::vector<MO> o;
	for (int r = 1; r <= 3; ++r) for (int c = 1; c <= 3; ++c) { o.push_back({ 0, r, c }); }  // resize
	o.push_back({ 0, 4, 2 });
	o.push_back({ 1, 0, 0 });                       // insert a vector of the right length
	o.push_back({ 2, 0, 0 });                       // insert a vector of a wrong length
	o.push_back({ 3, 7, 0 });                       // fill
	o.push_back({ 4, 0, 0 });                       // transpose into itself
	o.push_back({ 5, 0, 0 }); o.push_back({ 6, 0, 0 }); o.push_back({ 7, 0, 0 }); // += itself, -= copy, *= transpose
	o.push_back({ 8, 2, 0 }); o.push_back({ 9, 3, 0 }); o.push_back({ 10, 2, 0 }); o.push_back({ 11, 2, 0 }); // scalars
	o.push_back({ 12, 0, 0 });                      // write one element
	o.push_back({ 13, 0, 0 }); o.push_back({ 14, 0, 0 }); // assign to the other, swap
	o.push_back({ 15, 0, 0 }); o.push_back({ 16, 0, 0 }); o.push_back({ 17, 0, 0 }); // *= itself (where square), -= itself, = itself
	return o;
}
static void build(Plan& p)
{
	p.property = "C08"; p.level = "model_checking";
	int depth = p.thorough ? 5 : 4;
	p.rule = S("determinant, adjoint, inverse and transpose of every 1x1, 2x2 and 3x3 matrix over small integers and every 4x4 matrix over {0,1} (thorough: {-1,0,2} on a sublattice); every permutation matrix, every choice of one row and every pair of equal lines of 5x5 and 6x6 (thorough also 7x7) matrices; shapes up to 33; sum, difference, product and comparison of all pairs of shapes up to 4 with several fillings and of all pairs of 2x2 matrices; every sequence of %d operations (resize, insert, fill, transpose, compound assignment, scalars, element write, assignment) on two matrices against a model", depth);
	p.assumptions = { "operands of + and - have one shape, operands of * fit", "entries are small integers, so that float arithmetic is exact up to the stated tolerance" };
	p.add("1x1", 41, [](uint64_t ix, Case& k) { MM m = mm(1, 1, (double)ix - 20); square<float>(k, m, "float"); square<double>(k, m, "double"); }, "");
	p.add("2x2", ipow(9, 4), [](uint64_t ix, Case& k) { MM m = decode(ix, 2, 2, { -4, -3, -2, -1, 0, 1, 2, 3, 4 }); square<float>(k, m, "float"); square<double>(k, m, "double"); if (k.want_sample()) k.sample("%s", show(m).c_str()); }, "all 2x2 over -4..4");
	std::vector<double> e3 = p.thorough ? std::vector<double>{ -2, -1, 0, 1, 3 } : std::vector<double>{ -1, 0, 2 };
	p.add("3x3", ipow(e3.size(), 9), [=](uint64_t ix, Case& k) { MM m = decode(ix, 3, 3, e3); square<float>(k, m, "float"); if (ix % 3 == 0) square<double>(k, m, "double"); if (k.want_sample()) k.sample("%s", show(m).c_str()); }, "all 3x3 over a small set");
	p.add("4x4", 65536, [](uint64_t ix, Case& k) { MM m = decode(ix, 4, 4, { 0, 1 }); square<float>(k, m, "float"); if (k.want_sample()) k.sample("%s", show(m).c_str()); }, "all 4x4 over {0,1}");
	p.add("4x4_signed", p.thorough ? ipow(3, 12) : ipow(3, 8), [](uint64_t ix, Case& k)
	{
		MM m = mm(4, 4); static const double V[] = { -1, 0, 2 };
		for (int i = 0; i < 12; ++i) { m[i / 4][i % 4] = V[ix % 3]; ix /= 3; }
		m[3][0] = 1; m[3][1] = -2; m[3][2] = 3; m[3][3] = 1; for (int i = 0; i < 4; ++i) m[i % 3][i] += i;
		square<double>(k, m, "double");
	}, "4x4 with signs");
	// larger matrices: every permutation (with distinct weights), every choice of one row and of the diagonal
	for (int n = 5; n <= (p.thorough ? 7 : 6); ++n)
	{
		uint64_t f = 1; for (int i = 2; i <= n; ++i) f *= i;
		p.add(S("permutations:%dx%d", n, n), n == 7 ? 210 : f, [=](uint64_t ix, Case& k)
		{
			std::vector<int> e; for (int i = 0; i < n; ++i) e.push_back(i);
			MM m = mm(n, n); uint64_t q = n == 7 ? ix * 24 : ix, g = f;
			for (int i = 0; i < n; ++i) { g /= n - i; int w = q / g; q %= g; m[i][e[w]] = 1 + (i % 3); e.erase(e.begin() + w); }
			square<double>(k, m, "double"); if (n == 5) square<float>(k, m, "float");
			if (k.want_sample()) k.sample("%s", show(m).c_str());
		}, "weighted permutation matrices");
		p.add(S("row:%dx%d", n, n), n == 7 ? 27 : ipow(3, n), [=](uint64_t ix, Case& k)
		{
			MM m = mm(n, n); static const double V[] = { -1, 0, 2 };
			for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = i == j ? 2 : (i * 3 + j * 5 + i * j) % 4 - 1;
			int r = ix % n; uint64_t x = ix; for (int j = 0; j < n; ++j) { m[r][j] = V[x % 3]; x /= 3; }
			square<double>(k, m, "double"); if (n == 5) square<float>(k, m, "float");
			for (int i = 0; i < n; ++i) { bool z = true, zc = true; matrix<double> a = lib<double>(m); for (int j = 0; j < n; ++j) { z &= m[i][j] == 0; zc &= m[j][i] == 0; } if (a.is_row_null(i) != z || a.is_column_null(i) != zc) k.fail(S("null:%d", n), "row or column %d of %s", i, show(m).c_str()); }
		}, "dense matrices with every choice of one row over {-1,0,2}");
		p.add(S("equal_lines:%dx%d", n, n), n * n * 2, [=](uint64_t ix, Case& k)
		{
			Radix r(ix); int a = r.next(n), b = r.next(n), col = r.next(2); if (a == b) return;
			MM m = mm(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = i == j ? 3 : (i * 3 + j * 5 + i * j) % 4 - 1;
			for (int j = 0; j < n; ++j) if (col) m[j][b] = m[j][a]; else m[b][j] = m[a][j];
			square<double>(k, m, "double");
			matrix<float> x = lib<float>(m); if (!(col ? x.are_columns_equal(a, b) : x.are_rows_equal(a, b))) k.fail(S("equal_lines:%d", n), "lines %d and %d of %s", a, b, show(m).c_str());
			for (int j = 0; j < n; ++j) { MM q = m; if (col) q[j][b] += 1; else q[b][j] += 1; matrix<float> y = lib<float>(q); k.eval(); if (col ? y.are_columns_equal(a, b) : y.are_rows_equal(a, b)) k.fail(S("equal_lines:%d", n), "lines %d and %d of %s taken as equal", a, b, show(q).c_str()); if (q != m && y == x) k.fail(S("equality:%d", n), "%s equals %s", show(q).c_str(), show(m).c_str()); }
		}, "two equal rows or columns; one element off");
	}
	// the same matrices scaled by powers of two, exact in float: small and large determinants
	p.add("scaled", 19 * 3 * 4096, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int e = r.next(19) * 2 - 18, n = 1 + r.next(3); uint64_t i = r.next(4096); double f = std::ldexp(1.0, e);
		static const double V[] = { -1, 0, 1, 2, 3, -2, 4, 5 };
		MM m = mm(n, n); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) m[a][b] = f * (n == 3 && (a + b) % 2 ? V[(i * 5 + a) % 3] : V[(i >> (3 * ((a * n + b) / (n == 3 ? 2 : 1) % 4))) % 8]);
		matrix<float> a = lib<float>(m); double d = det(m); float g = a.determinante(); k.eval(3); k.transition(2);
		if (!(fabs(g - d) <= 1e-6 * fabs(d))) k.fail(S("determinant:scaled:%d", n), "determinant of %s is %g, expected %g", show(m).c_str(), (double)g, d);
		matrix<float> inv = a.invert();
		MM I = mm(n, n); for (int q = 0; q < n; ++q) I[q][q] = 1;
		if (d == 0 ? !same(inv, m) : !same(a * inv, I, 1e-4)) k.fail(S("inverse:scaled:%d", n), "inverse of %s is %s", show(m).c_str(), show(inv).c_str());
		k.state(hm(m)); k.trace(); if (k.want_sample()) k.sample("%s", show(m).c_str());
	}, "1x1 to 3x3 scaled by 2^-18 to 2^18");
	// elements of very different magnitude: nothing counts as zero or equal that is not
	p.add("magnitudes", 3 * 3 * 3 * 3 * 3 * 3 * 13, [](uint64_t ix, Case& k)
	{
		Radix rx(ix); int e = (rx.next(13) - 6) * 6, R = 1 + rx.next(3), N = 1 + rx.next(3), C = 1 + rx.next(3), i = rx.next(3) % R, l = rx.next(3) % N, j = rx.next(3) % C;
		MM x = mm(R, N), y = mm(N, C); int q = (int)ix % 7;
		for (auto& v : x) for (double& w : v) w = (q++ * 7) % 5 - 2; for (auto& v : y) for (double& w : v) w = (q++ * 3) % 5 - 2;
		x[i][l] = std::ldexp(3.0, e); y[l][j] = std::ldexp(5.0, -e);
		matrix<float> a = lib<float>(x), b = lib<float>(y), c = a * b; k.eval(6); k.transition(4); k.trace(); k.state(mc::mix(hm(x), hm(y)));
		for (int r = 0; r < R; ++r) for (int s = 0; s < C; ++s)
		{
			double w = 0, m = 0; for (int z = 0; z < N; ++z) { w += x[r][z] * y[z][s]; m += fabs(x[r][z] * y[z][s]); }
			if (!(fabs(c(r, s) - w) <= 1e-6 * m)) k.fail("product:magnitudes", "%s * %s has %.9g at (%d,%d), expected %.9g", show(x).c_str(), show(y).c_str(), c(r, s), r, s, w);
		}
		std::vector<float> v; for (auto& z : y) v.push_back((float)z[j]); auto p = a * v;
		for (int r = 0; r < R; ++r) { double w = 0, m = 0; for (int z = 0; z < N; ++z) { w += x[r][z] * y[z][j]; m += fabs(x[r][z] * y[z][j]); } if (!(fabs(p[r] - w) <= 1e-6 * m)) k.fail("vector_product:magnitudes", "%s times column %d of %s has %.9g at %d, expected %.9g", show(x).c_str(), j, show(y).c_str(), p[r], r, w); }
		// one element off by that magnitude, and by the smallest step
		MM z = x; z[i][l] = 0; matrix<float> n = lib<float>(z); if (n == a || (const matrix<float>&)n == a) k.fail("equality:magnitudes", "%s equals %s", show(z).c_str(), show(x).c_str());
		n = a; n(i, l) = nextafterf(n(i, l), 0.f); if (n == a) k.fail("equality:step", "%s equals a matrix one step off", show(x).c_str());
		if (a - n == matrix<float>(R, N, 0.f)) k.fail("minus:step", "the difference of %s and a matrix one step off is zero", show(x).c_str());
		MM o = mm(R, N); o[i][l] = x[i][l]; n = lib<float>(o); if (n.is_row_null(i) || n.is_column_null(l)) k.fail("null:magnitudes", "row %d or column %d of %s counts as null", i, l, show(o).c_str());
		if (R > 1 && (n.are_rows_equal(i, (i + 1) % R) || n.are_rows_equal((i + 1) % R, i))) k.fail("rows_equal:magnitudes", "rows of %s count as equal", show(o).c_str());
		if (N > 1 && (n.are_columns_equal(l, (l + 1) % N) || n.are_columns_equal((l + 1) % N, l))) k.fail("columns_equal:magnitudes", "columns of %s count as equal", show(o).c_str());
		n = lib<float>(x) * (float)std::ldexp(1.0, -e); for (int r = 0; r < R; ++r) for (int s = 0; s < N; ++s) if (n(r, s) != (float)(x[r][s] * std::ldexp(1.0, -e))) k.fail("scale:magnitudes", "%s * 2^%d", show(x).c_str(), -e);
		n = lib<float>(x) / (float)std::ldexp(1.0, e); for (int r = 0; r < R; ++r) for (int s = 0; s < N; ++s) if (!close(n(r, s), x[r][s] * std::ldexp(1.0, -e), 1e-6 * fabs(x[r][s] * std::ldexp(1.0, -e)))) k.fail("divide:magnitudes", "%s / 2^%d", show(x).c_str(), e);
		if (k.want_sample()) k.sample("%s * %s", show(x).c_str(), show(y).c_str());
	}, "products, comparisons and scalings with elements from 2^-36 to 2^36");
	// nearly singular matrices whose determinant is exact in float
	p.add("near_singular", 23 * 2 * 125 * 2, [](uint64_t ix, Case& k)
	{
		Radix rx(ix); int e = rx.next(23), col = rx.next(2), n = 2 + rx.next(2); uint64_t i = rx.next(125); double f = std::ldexp(1.0, -e);
		double u[3] = { 1.0 + i % 5, (double)(i / 5 % 5) - 2, (double)(i / 25) - 2 }; MM m = mm(n, n);
		for (int c = 0; c < n; ++c) { m[0][c] = u[c]; m[1][c] = u[c]; } if (n == 3) { m[2][0] = 0; m[2][1] = 0; m[2][2] = 1; m[0][2] = m[1][2] = 0; }
		m[1][1] += f; if (std::fabs(m[1][1]) > 4 && e > 21) return;
		if (col) m = tr(m);
		double d = det(m); matrix<float> a = lib<float>(m); float g = a.determinante(); k.eval(2); k.transition(2); k.trace(); k.state(hm(m));
		if (!(fabs(g - d) <= 1e-2 * fabs(d) + 2e-6 * fabs(u[0] * m[1][1]))) k.fail(S("determinant:near:%d", n), "determinant of %s (2^-%d off singular) is %g, expected %g", show(m).c_str(), e, (double)g, d);
		if (e < 18) { matrix<float> inv = a.invert(); MM I = mm(n, n); for (int q = 0; q < n; ++q) I[q][q] = 1; if (!same(a * inv, I, 1e-6 * std::ldexp(1.0, e) + 1e-4)) k.fail(S("inverse:near:%d", n), "%s (2^-%d off singular) times its inverse is %s", show(m).c_str(), e, show(a * inv).c_str()); }
		matrix<double> b = lib<double>(m); double h = b.determinante(); if (!(fabs(h - d) <= 1e-5 * fabs(d))) k.fail(S("determinant:near_double:%d", n), "determinant of %s (2^-%d off singular) is %g, expected %g", show(m).c_str(), e, h, d);
	}, "two nearly equal rows or columns");
	// long shapes: products, sums, transposes, resizes far beyond the sizes of a test
	p.add("long", 9 * 9 * 9, [](uint64_t ix, Case& k)
	{
		static const int N[] = { 1, 2, 5, 6, 7, 8, 9, 17, 33 };
		Radix r(ix); int a = N[r.next(9)], b = N[r.next(9)], c = N[r.next(9)];
		MM x = mm(a, b), y = mm(b, c), z = mm(a, b); int q = 1;
		for (auto& e : x) for (double& v : e) v = (q++ * 7) % 11 - 5;
		for (auto& e : y) for (double& v : e) v = (q++ * 5) % 7 - 3;
		for (auto& e : z) for (double& v : e) v = (q++ * 3) % 13 - 6;
		pair(k, x, y); pair(k, x, z); k.eval(8);
		matrix<float> m = lib<float>(x);
		if (!same(m.transpose(), tr(x))) k.fail("transpose:long", "transpose of a %dx%d matrix", a, b);
		MM t = x; for (auto& e : t) for (double& v : e) v = v * -2 + 3; if (!same(m * -2.f + 3.f, t)) k.fail("scalar:long", "-2 m + 3 of a %dx%d matrix", a, b);
		t = x; for (auto& e : t) for (double& v : e) v = v / 4 - 1; if (!same(m / 4.f - 1.f, t)) k.fail("scalar:long", "m / 4 - 1 of a %dx%d matrix", a, b);
		MM id = mm(a, a); for (int i = 0; i < a; ++i) id[i][i] = 1;
		if (!same(matrix<float>::create_idendity(a), id)) k.fail("identity:long", "identity of size %d", a);
		matrix<float> w = m; w.resize(c, b, 4.f); t = mm(c, b, 4); for (int i = 0; i < std::min(a, c); ++i) t[i] = x[i]; if (!same(w, t)) k.fail("resize:long", "a %dx%d matrix resized to %dx%d", a, b, c, b);
		w = m; w.resize(a, c, 4.f); t = mm(a, c, 4); for (int i = 0; i < a; ++i) for (int j = 0; j < std::min(b, c); ++j) t[i][j] = x[i][j]; if (!same(w, t)) k.fail("resize:long", "a %dx%d matrix resized to %dx%d", a, b, a, c);
		std::vector<float> in; for (int i = 0; i < a * b; ++i) in.push_back(i * 0.5f); w = m; w.insert(in); t = x; for (int i = 0; i < a * b; ++i) t[i / b][i % b] = i * 0.5; if (!same(w, t)) k.fail("insert:long", "inserting %d values into a %dx%d matrix", a * b, a, b);
		w.fill(6.f); if (!same(w, mm(a, b, 6))) k.fail("fill:long", "filling a %dx%d matrix", a, b);
	}, "shapes up to 33");
	p.add("pairs2x2", ipow(3, 8), [](uint64_t ix, Case& k) { uint64_t n = ipow(3, 4); pair(k, decode(ix % n, 2, 2, { -1, 0, 2 }), decode(ix / n, 2, 2, { -1, 1, 3 })); }, "all pairs of 2x2");
	p.add("pairs3x3", 243 * 243, [](uint64_t ix, Case& k)
	{
		MM a = mm(3, 3), b = mm(3, 3); uint64_t i = ix % 243, j = ix / 243; static const double V[] = { -1, 0, 2 };
		for (int q = 0; q < 9; ++q) { a[q / 3][q % 3] = q % 2 ? V[(i / ipow(3, q / 2)) % 3] : V[(i / ipow(3, q / 2)) % 3] + q; b[q / 3][q % 3] = V[(j / ipow(3, q / 2)) % 3] * (1 + q % 4); }
		pair(k, a, b);
	}, "pairs of 3x3");
	p.add("shapes", ipow(4, 4) * 8, [](uint64_t ix, Case& k)
	{
		Radix r(ix); int a = 1 + r.next(4), b = 1 + r.next(4), c = 1 + r.next(4), d = 1 + r.next(4), f = r.next(8);
		MM x = mm(a, b), y = mm(c, d); int q = 1;
		for (auto& e : x) for (double& v : e) v = (q++ * (f + 1)) % 11 - 5;
		for (auto& e : y) for (double& v : e) v = (q++ * (f + 3)) % 7 - 3;
		if (f == 0 && a == c && b == d) y = x;
		pair(k, x, y);
		// element access
		matrix<float> m = lib<float>(x); const matrix<float>& cm = m;
		static const int I[] = { INT32_MIN, -2, -1, 0, 1, 2, 3, 4, 5, 100, INT32_MAX };
		for (int i : I) for (int j : I)
		{
			bool in = i >= 0 && i < a && j >= 0 && j < b; k.eval(2);
			float g = 0, h = 0;
			bool e1 = raises([&] { g = m(i, j); }), e2 = raises([&] { h = cm(i, j); });
			if (e1 == in || e2 == in) k.fail("access", "element (%d,%d) of a %dx%d matrix %s", i, j, a, b, e1 ? "raises" : "is readable");
			else if (in && (g != (float)x[i][j] || h != (float)x[i][j])) k.fail("element", "element (%d,%d) of %s is %g", i, j, show(x).c_str(), g);
			if (!in) k.raised(2);
		}
		// transpose, scalars, constructors, identity
		if (!same(m.transpose(), tr(x))) k.fail(S("transpose:%dx%d", a, b), "transpose of %s is %s", show(x).c_str(), show(m.transpose()).c_str());
		MM t = x; for (auto& e : t) for (double& v : e) v += 3; if (!same(m + 3.f, t)) k.fail("scalar_plus", "%s + 3", show(x).c_str());
		t = x; for (auto& e : t) for (double& v : e) v -= 3; if (!same(m - 3.f, t)) k.fail("scalar_minus", "%s - 3", show(x).c_str());
		t = x; for (auto& e : t) for (double& v : e) v *= -2; if (!same(m * -2.f, t)) k.fail("scalar_times", "%s * -2", show(x).c_str());
		t = x; for (auto& e : t) for (double& v : e) v /= 4; if (!same(m / 4.f, t)) k.fail("scalar_divide", "%s / 4", show(x).c_str());
		if (!same(matrix<float>(a, b), mm(a, b)) || !same(matrix<float>(a, b, 5.f), mm(a, b, 5)) || !same(matrix<float>(a), mm(a, a))) k.fail("construct", "%dx%d constructors", a, b);
		MM id = mm(a, a); for (int i = 0; i < a; ++i) id[i][i] = 1;
		if (!same(matrix<float>::create_idendity(a), id)) k.fail("identity", "identity of size %d", a);
		std::vector<float> sq; for (int i = 0; i < a * a; ++i) sq.push_back(i - 3.f); MM sm = mm(a, a); for (int i = 0; i < a * a; ++i) sm[i / a][i % a] = i - 3;
		if (!same(matrix<float>(a, sq), sm)) k.fail("construct_square", "square matrix of size %d from a vector", a);
		if (a != b && m.determinante() != 0) k.fail("determinant_shape", "determinant of %s is %g", show(x).c_str(), m.determinante());
		for (int o : { 0, 1, 2, 1000 }) if (m.is_row_null(a + o) || m.is_column_null(b + o) || m.are_rows_equal(0, a + o) || m.are_rows_equal(a + o, 0) || m.are_rows_equal(a + o, a + o) || m.are_columns_equal(0, b + o) || m.are_columns_equal(b + o, 0) || m.are_columns_equal(b + o, b + o)) k.fail("outside", "a row or column %d outside of a %dx%d matrix counts as null or equal", o, a, b);
		for (int i = 0; i < a; ++i) { bool z = true; for (double v : x[i]) if (v != 0) z = false; k.eval(); if (m.is_row_null(i) != z) k.fail("row_null", "row %d of %s", i, show(x).c_str()); for (int j = 0; j < a; ++j) if (m.are_rows_equal(i, j) != (x[i] == x[j])) k.fail("rows_equal", "rows %d, %d of %s", i, j, show(x).c_str()); }
		MM xt = tr(x);
		for (int i = 0; i < b; ++i) { bool z = true; for (double v : xt[i]) if (v != 0) z = false; k.eval(); if (m.is_column_null(i) != z) k.fail("column_null", "column %d of %s", i, show(x).c_str()); for (int j = 0; j < b; ++j) if (m.are_columns_equal(i, j) != (xt[i] == xt[j])) k.fail("columns_equal", "columns %d, %d of %s", i, j, show(x).c_str()); }
		if (k.want_sample()) k.sample("%s with %s", show(x).c_str(), show(y).c_str());
	}, "all pairs of shapes up to 4x4");
	static auto ops = mops();
	p.add("sequences", ipow(ops.size(), depth) * 2, [=](uint64_t ix, Case& k)
	{
		Radix r(ix);
		int st = r.next(2);
		MM m[2] = { st ? MM{ { 1, 2, 3 }, { 4, 5, 6 } } : MM{ { 2, 1 }, { 0, 3 } }, { { 1 }, { 2 } } };
		matrix<float> a[2] = { lib<float>(m[0]), lib<float>(m[1]) };
		std::string h = show(m[0]);
		for (int q = 0; q < depth; ++q)
		{
			MO o = ops[r.next(ops.size())]; k.transition();
			int R = m[0].size(), C = m[0][0].size();
			static const char* K[] = { "resize", "insert", "insert_wrong", "fill", "transpose", "plus", "minus", "times", "add", "sub", "scale", "divide", "write", "assign", "swap", "square", "minus_self", "assign_self" };
			h += S(" %s(%d,%d)", K[o.kind], o.a, o.b);
			switch (o.kind)
			{
			case 0:
			{
				a[0].resize(o.a, o.b, 9.f + q);
				MM n = mm(o.a, o.b, 9 + q); for (int i = 0; i < std::min(R, o.a); ++i) for (int j = 0; j < std::min(C, o.b); ++j) n[i][j] = m[0][i][j];
				m[0] = n; break;
			}
			case 1: { std::vector<float> v; for (int i = 0; i < R * C; ++i) { v.push_back(i + q + 1.f); m[0][i / C][i % C] = i + q + 1; } a[0].insert(v); break; }
			case 2: { std::vector<float> v(R * C + (q & 1 ? 1 : -1), 77.f); a[0].insert(v); break; }
			case 3: a[0].fill((float)o.a); for (auto& x : m[0]) for (double& y : x) y = o.a; break;
			case 4: a[0] = a[0].transpose(); m[0] = tr(m[0]); break;
			case 5: a[0] += a[0]; for (auto& x : m[0]) for (double& y : x) y += y; break;
			case 6: { matrix<float> c(a[0]); a[0] -= c; for (auto& x : m[0]) for (double& y : x) y = 0; break; }
			case 7: { matrix<float> t = a[0].transpose(); a[0] *= t; m[0] = mulm(m[0], tr(m[0])); break; }
			case 8: a[0] = a[0] + (float)o.a; for (auto& x : m[0]) for (double& y : x) y += o.a; break;
			case 9: a[0] = a[0] - (float)o.a; for (auto& x : m[0]) for (double& y : x) y -= o.a; break;
			case 10: a[0] = a[0] * (float)o.a; for (auto& x : m[0]) for (double& y : x) y *= o.a; break;
			case 11: a[0] = a[0] / (float)o.a; for (auto& x : m[0]) for (double& y : x) y /= o.a; break;
			case 12: a[0](R - 1, C - 1) = -5; m[0][R - 1][C - 1] = -5; break;
			case 13: a[1] = a[0]; m[1] = m[0]; break;
			case 15: if (R == C) { a[0] *= a[0]; m[0] = mulm(m[0], m[0]); } break;
			case 16: a[0] -= a[0]; for (auto& x : m[0]) for (double& y : x) y = 0; break;
			case 17: { matrix<float>& t = a[0]; a[0] = t; break; }
			case 14: { matrix<float> t(a[0]); a[0] = a[1]; a[1] = t; std::swap(m[0], m[1]); break; }
			}
			double mx = 0; for (auto& x : m[0]) for (double y : x) mx = std::max(mx, fabs(y));
			if (mx > 1e6) break; // beyond exact float arithmetic
		}
		k.eval(2); k.trace();
		for (int s = 0; s < 2; ++s) if (!same(a[s], m[s], 1e-3)) k.fail(S("sequence:%d", s), "%s: matrix %d is %s, expected %s", h.c_str(), s, show(a[s]).c_str(), show(m[s]).c_str());
		k.state(mc::mix(hm(m[0]), hm(m[1])));
		if (k.want_sample()) k.sample("%s -> %s", h.c_str(), show(m[0]).c_str());
	}, "operation sequences on two matrices");
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
