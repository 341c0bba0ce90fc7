/* Reference for C51: reads "p op args... | results..." lines and prints, for
 * each, the worst error in ulps of the result against a quad precision value,
 * or "bad <expected>" when a special or exact result is wrong. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <quadmath.h>
#include <fenv.h>

typedef __float128 Q;
static int prec;

static double fromd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint64_t tod(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static float fromf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static uint32_t tof(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static double val(const char *s)
{
	uint64_t u = strtoull(s, NULL, 10);
	return prec == 64 ? fromd(u) : (double)fromf(u);
}

/* the number in the format nearest to q */
static double near_(Q q) { return prec == 64 ? (double)q : (double)(float)q; }

static const double NA = 0.0;
static int special;	/* the exact bits are required */

static char buf[1 << 22], *tokv[200000];

static double ulps(double got, Q q)
{
	int emin = prec == 64 ? -1074 : -149, p = prec == 64 ? 53 : 24, emax = prec == 64 ? 1024 : 128;
	Q g, u;
	int e;

	if (isnan(got) || isnanq(q))
		return isnan(got) && isnanq(q) ? 0 : 1e9;
	if (isinfq(q))
		return isinf(got) && (got > 0) == (q > 0) ? 0 : 1e9;
	if (q == 0)
		return got == 0 && !signbit(got) == !signbitq(q) ? 0 : 1e9;
	if (isinf(got) && fabsq(q) >= scalbnq(1, emax) - scalbnq(1, emax - p - 1) && (got > 0) == (q > 0))
		return 0;
	if (isinf(got))
		g = copysignq(scalbnq(1, emax), got);
	else
		g = got;
	if (fabsq(q) > scalbnq(1, emax) * 4)
		q = copysignq(scalbnq(1, emax), q);
	e = ilogbq(q) - p + 1;
	if (e < emin)
		e = emin;
	if (e > emax - p)
		e = emax - p;
	/* the sign of a result that underflows to zero still counts */
	if (g == 0 && !!signbitq(g) != !!signbitq(q))
		return 1e8;
	u = scalbnq(1, e);
	return (double)(fabsq(g - q) / u);
}

static Q powrq(double x, double y)
{
	if (isnan(x) || isnan(y) || x < 0)
		return NAN;
	if (x == 0) {
		if (y == 0)
			return NAN;
		return y > 0 ? 0 : INFINITY;
	}
	if (isinf(x)) {
		if (y == 0)
			return NAN;
		return y > 0 ? INFINITY : 0;
	}
	if (isinf(y)) {
		if (x == 1)
			return NAN;
		return (x > 1) == (y > 0) ? INFINITY : 0;
	}
	return powq(x, y);
}

static Q pownq(double x, int64_t n)
{
	Q r;

	if (n == 0)
		return 1;
	if (isnan(x))
		return NAN;
	if (x == 0 || isinf(x)) {
		r = ((x == 0) == (n > 0)) ? 0 : INFINITY;
		return (n & 1) && signbit(x) ? -r : r;
	}
	r = powq(fabs(x), (Q)n);
	return (n & 1) && x < 0 ? -r : r;
}

static Q rootnq(double x, uint64_t n)
{
	Q r;

	if (n == 0)
		return 1; /* as the code says */
	if (isnan(x))
		return NAN;
	if (x == 0)
		return (n & 1) ? x : 0;
	if (x < 0 && !(n & 1))
		return NAN;
	if (isinf(x))
		return x;
	r = n == 1 ? (Q)fabs(x) : powq(fabs(x), (Q)1 / (Q)n);
	return x < 0 ? -r : r;
}

int main(void)
{
	while (fgets(buf, sizeof buf, stdin)) {
		int n = 0, bar = 0;
		char *t;
		double worst = 0, a[3] = {0};
		char op;

		for (t = strtok(buf, " \n"); t; t = strtok(NULL, " \n")) {
			if (!strcmp(t, "|"))
				bar = n;
			else
				tokv[n++] = t;
		}
		prec = tokv[0][0] == 'd' ? 64 : 32;
		op = tokv[1][0];
		char **arg = tokv + 2, **res = tokv + bar;
		int nres = n - bar;
		Q q = 0;
		int i;
		for (i = 0; i < 3 && 2 + i < bar; i++)
			a[i] = val(arg[i]);
		int exact = 0;
		double x = a[0], y = a[1];

		if (op == 'k') {	/* error against the exact sum, in ulps of the bound */
			int m = atoi(arg[0]);
			Q s = 0, mag = 0, c = 0;
			for (i = 0; i < m; i++) {
				Q v = val(arg[1 + i]), tt = s + v;
				c += fabsq(s) >= fabsq(v) ? (s - tt) + v : (v - tt) + s;
				s = tt;
				mag += fabsq(v);
			}
			s += c;
			Q u = scalbnq(1, prec == 64 ? -53 : -24);
			Q ek = fabsq((Q)val(res[0]) - s), ep = fabsq((Q)val(res[1]) - s);
			Q tiny = scalbnq(1, prec == 64 ? -1074 : -149);
			printf("%g %g%s\n", (double)(ek / (2 * u * mag + (Q)m * m * u * u * mag + tiny)),
			    (double)(ep / (2 * u * fabsq(s) + (Q)m * u * u * mag + tiny)), nres > 2 ? " changed" : "");
			continue;
		}
		if (op == 'h') {
			int m = atoi(arg[1]);
			uint64_t e;
			if (prec == 64) {
				double r = 0;
				for (i = m - 1; i >= 0; i--)
					r = fma(r, x, val(arg[2 + i]));
				e = tod(r);
				exact = isnan(r);
			} else {
				float r = 0;
				for (i = m - 1; i >= 0; i--)
					r = fmaf(r, (float)x, (float)val(arg[2 + i]));
				e = tof(r);
				exact = isnan(r);
			}
			for (i = 0; i < 2; i++)
				if (exact ? !isnan(val(res[i])) : strtoull(res[i], NULL, 10) != e)
					break;
			if (i < 2)
				printf("bad %llu\n", (unsigned long long)e);
			else
				printf("0\n");
			continue;
		}
		if (op == 'R') {
			long long e, g = strtoll(res[0], NULL, 10);
			double lim = prec == 64 ? 0x1p63 : 0x1p31;
			double r = nearbyint(x);
			if (isnan(x) || r >= lim || r < -lim) {	/* unrepresentable */
				printf("0\n");
				continue;
			}
			e = (long long)r;
			if (e != g) printf("bad %lld\n", e); else printf("0\n");
			continue;
		}
		switch (op) {
		case 'm':
			q = prec == 64 ? fma(a[0], a[1], a[2]) : fmaf((float)a[0], (float)a[1], (float)a[2]);
			exact = 1;
			break;
		case 'q': q = prec == 64 ? sqrt(x) : sqrtf((float)x); exact = 1; break;
		case 'v': q = trunc(x); exact = 1; break;
		case 'V': q = ceil(x); exact = 1; break;
		case 'w': q = floor(x); exact = 1; break;
		case '2': {
			long long m = strtoll(arg[1], NULL, 10);
			int k = m > 100000 ? 100000 : m < -100000 ? -100000 : (int)m;
			q = prec == 64 ? scalbn(x, k) : scalbnf((float)x, k);
			exact = 1;
			break;
		}
		case 'a': q = atanq(x); break;
		case 'A': q = atan2q(a[0], a[1]); break;
		case 'e': q = expq(x); break;
		case 'E': q = expm1q(x); break;
		case 'l': q = x == 0 ? -INFINITY : x < 0 ? NAN : logq(x); break;
		case 'L': q = x == -1 ? -INFINITY : x < -1 ? NAN : log1pq(x); break;
		case 'n': q = pownq(x, strtoll(arg[1], NULL, 10)); break;
		case 'r': q = rootnq(x, strtoull(arg[1], NULL, 10)); break;
		case 'p': q = powrq(x, y); break;
		case 's': q = isinf(x) ? NAN : sinq(x); break;
		case 'c': q = isinf(x) ? NAN : cosq(x); break;
		case 't': q = isinf(x) ? NAN : tanq(x); break;
		case 'T': q = isinf(x) ? NAN : x == 0 ? 1 / (Q)x : cosq(x) / sinq(x); break;
		case 'S': {
			double e1 = ulps(val(res[0]), isinf(x) ? NAN : sinq(x)), e2 = ulps(val(res[1]), isinf(x) ? NAN : cosq(x));
			printf("%g\n", e1 > e2 ? e1 : e2);
			continue;
		}
		}
		double got = val(res[0]);
		if (exact) {
			double e = near_(q);
			if (isnan(e) ? !isnan(got) : tod(got) != tod(e))
				printf("bad %a\n", e);
			else
				printf("0\n");
			continue;
		}
		worst = ulps(got, q);
		printf("%g\n", worst);
	}
	return 0;
}
