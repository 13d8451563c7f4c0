// Exact rational linear programming core of the polyhedral domain (Bland's rule).
// minimise obj.x subject to A x + b >= 0, x free.  128 bit rationals, GMP when they overflow.
#include <gmpxx.h>
#include <vector>
#include <cstdint>
#include <cstring>
typedef __int128 i128;
struct Overflow {};
struct F
{
	i128 n; i128 d;
	F(long x = 0) : n(x), d(1) {}
	static i128 mul(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }
	static i128 add(i128 a, i128 b) { i128 r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
	static i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
	void red() { if (d != 1) { i128 g = gcd(n, d); if (g != 1 && g != 0) { n /= g; d /= g; } } }
};
static inline int sgn(const F &a) { return a.n < 0 ? -1 : a.n > 0; }
static inline F operator-(const F &a) { F r; r.n = -a.n; r.d = a.d; return r; }
static inline F operator*(const F &a, const F &b) { F r; r.n = F::mul(a.n, b.n); if (a.d == 1 && b.d == 1) { r.d = 1; return r; } r.d = F::mul(a.d, b.d); r.red(); return r; }
static inline F operator/(const F &a, const F &b) { F i; if (b.n > 0) { i.n = b.d; i.d = b.n; } else { i.n = -b.d; i.d = -b.n; } return a * i; }
static inline void operator+=(F &a, const F &b) { if (a.d == 1 && b.d == 1) { a.n = F::add(a.n, b.n); return; } a.n = F::add(F::mul(a.n, b.d), F::mul(b.n, a.d)); a.d = F::mul(a.d, b.d); a.red(); }
static inline bool operator<(const F &a, const F &b) { return F::mul(a.n, b.d) < F::mul(b.n, a.d); }
static inline bool operator==(const F &a, const F &b) { return a.n == b.n && a.d == b.d; }
static inline bool isone(const F &a) { return a.d == 1 && (a.n == 1 || a.n == -1); }
static inline bool isone(const mpq_class &a) { return a == 1 || a == -1; }
static void set128(mpq_class &q, int64_t hi, uint64_t lo) { mpz_class z = (long)hi; z <<= 64; mpz_class l = (unsigned long)lo; z += l; q = z; }
static void set128(F &q, int64_t hi, uint64_t lo) { q.n = ((i128)hi << 64) + (i128)lo; q.d = 1; }
static bool ceil128(const F &q, int64_t *hi, uint64_t *lo)
{
	i128 z = q.n / q.d; if (z * q.d < q.n) z++;
	*hi = (int64_t)(z >> 64); *lo = (uint64_t)z; return true;
}
static bool ceil128(const mpq_class &q, int64_t *ohi, uint64_t *olo)
{
	mpz_class z, hi, lo;
	mpz_cdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
	mpz_fdiv_q_2exp(hi.get_mpz_t(), z.get_mpz_t(), 64);
	lo = z - (hi << 64);
	if (!hi.fits_slong_p()) return false;
	*ohi = hi.get_si(); *olo = lo.get_ui(); return true;
}
template <class Q> static int solve(int nv, int m, const int64_t *A, const int64_t *bhi, const uint64_t *blo, const int64_t *obj, int mode, int64_t *ohi, uint64_t *olo)
{
	// rows: basic variable = sum coef * nonbasic + const
	std::vector<std::vector<Q> > T(m, std::vector<Q>(nv + 1));
	std::vector<int> basic(m), nonb(nv);	// ids: 0..nv-1 free x, nv.. slack
	for (int i = 0; i < m; i++)
	{
		for (int j = 0; j < nv; j++) T[i][j] = (long)A[i * nv + j];
		set128(T[i][nv], bhi[i], blo[i]);
		basic[i] = nv + i;
	}
	std::vector<Q> O(nv + 1);
	if (mode) for (int j = 0; j < nv; j++) O[j] = (long)obj[j];
	for (int j = 0; j < nv; j++) nonb[j] = j;
	auto pivot = [&](int r, int c)
	{
		Q p = T[r][c];
		// nonb[c] = (basic[r] - rest)/p
		Q inv = Q(1) / p;
		std::vector<Q> &R = T[r];
		for (int j = 0; j <= nv; j++) if (j != c && sgn(R[j])) R[j] = -R[j] * inv;
		R[c] = inv;
		for (int i = 0; i < m; i++) if (i != r && sgn(T[i][c]))
		{
			Q f = T[i][c]; T[i][c] = 0;
			for (int j = 0; j <= nv; j++) if (sgn(R[j])) T[i][j] += f * R[j];
		}
		if (mode && sgn(O[c]))
		{
			Q f = O[c]; O[c] = 0;
			for (int j = 0; j <= nv; j++) if (sgn(R[j])) O[j] += f * R[j];
		}
		int t = basic[r]; basic[r] = nonb[c]; nonb[c] = t;
	};
	// bring free variables into the basis
	for (int c = 0; c < nv; c++)
	{
		if (nonb[c] >= nv) continue;
		int best = -1;
		for (int r = 0; r < m; r++) if (basic[r] >= nv && sgn(T[r][c]))
		{
			best = r;
			if (isone(T[r][c])) break;
		}
		if (best >= 0) pivot(best, c);
	}
	// feasibility, least index rule
	for (;;)
	{
		int r = -1;
		for (int i = 0; i < m; i++) if (basic[i] >= nv && sgn(T[i][nv]) < 0 && (r < 0 || basic[i] < basic[r])) r = i;
		if (r < 0) break;
		int c = -1;
		for (int j = 0; j < nv; j++) if (nonb[j] >= nv && sgn(T[r][j]) > 0 && (c < 0 || nonb[j] < nonb[c])) c = j;
		if (c < 0)
		{
			bool fr = false;
			for (int j = 0; j < nv; j++) if (nonb[j] < nv && sgn(T[r][j])) fr = true;
			if (!fr) return 0;
			for (int j = 0; j < nv; j++) if (nonb[j] < nv && sgn(T[r][j])) { c = j; break; }
		}
		pivot(r, c);
	}
	if (!mode) return 1;
	for (;;)
	{
		int c = -1;
		for (int j = 0; j < nv; j++)
		{
			if (nonb[j] < nv) { if (sgn(O[j])) return 2; continue; }
			if (sgn(O[j]) < 0 && (c < 0 || nonb[j] < nonb[c])) c = j;
		}
		if (c < 0) break;
		int r = -1; Q best;
		for (int i = 0; i < m; i++) if (basic[i] >= nv && sgn(T[i][c]) < 0)
		{
			Q q = -T[i][nv] / T[i][c];
			if (r < 0 || q < best || (q == best && basic[i] < basic[r])) { r = i; best = q; }
		}
		if (r < 0) return 2;
		pivot(r, c);
	}
	return ceil128(O[nv], ohi, olo) ? 1 : 2;
}
extern "C" int lp_solve(int nv, int m, const int64_t *A, const int64_t *bhi, const uint64_t *blo, const int64_t *obj, int mode, int64_t *ohi, uint64_t *olo)
{
	try { return solve<F>(nv, m, A, bhi, blo, obj, mode, ohi, olo); }
	catch (Overflow &) { return solve<mpq_class>(nv, m, A, bhi, blo, obj, mode, ohi, olo); }
}
