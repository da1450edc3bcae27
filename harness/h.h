// Shared harness: replay of failed obligations and bounded stand-ins, run against the real sources in /repo.
#ifndef H_H
#define H_H
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <functional>
#include <limits>
#include <memory>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <csignal>
#include <cstdarg>
#include <complex>
#include <typeinfo>
#include "Others/def.h"
#include "Others/randgen.h"
#include "Manifolds/Element.h"
#include "Manifolds/Euclidean.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/SphereTx.h"
#include "Manifolds/Stiefel.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/Grassmann.h"
#include "Manifolds/SPDManifold.h"
#include "Manifolds/FixedRankE.h"
#include "Manifolds/FixedRankQ2F.h"
#include "Manifolds/CFixedRankQ2F.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Manifolds/CSymFixedRankQ.h"
#include "Manifolds/MultiManifolds.h"
#include "Problems/Problem.h"
using namespace ROPTLIB;
typedef std::vector<double> Vd;

struct Rng {
    unsigned long long s;
    Rng(unsigned long long seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 5; i++) next(); }
    unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double n() { double a = u(), b = u(); return std::sqrt(-2 * std::log(a + 1e-300)) * std::cos(6.283185307179586 * b); }
    int i(int k) { return (int)(next() % k); }
};

struct Report {
    std::string prop;
    long checks = 0, fails = 0;
    std::string only;      // run only cases with this prefix
    std::set<std::string> seen;
    std::map<std::string, long> groups;
    bool thorough = false;
    int seed = 1;
    FILE *out = stdout;
    void bad(const std::string &id, const std::string &msg) {
        fails++;
        if (seen.insert(id).second) { fprintf(out, "FAIL %s %s\n", id.c_str(), msg.c_str()); fflush(out); }
    }
    // val must be finite and <= tol
    bool le(const std::string &id, double val, double tol, const std::string &msg = "") {
        checks++; groups[id.substr(0, id.find('|'))]++;
        if (!(val <= tol)) { char b[200]; snprintf(b, 200, "error=%.6g tolerance=%.3g ", val, tol); bad(id, b + msg); return false; }
        return true;
    }
    bool ok(const std::string &id, bool c, const std::string &msg = "") {
        checks++; groups[id.substr(0, id.find('|'))]++;
        if (!c) bad(id, msg);
        return c;
    }
};
extern Report R;
inline std::string str0(const char *a, int v) { return std::string(a) + " " + std::to_string(v); }

// one case in a child process: an abort or a crash of the library is a failure of that case
inline void isolated(const std::string &id, const std::function<void()> &f, int secs = 60) {
    int fd[2]; if (pipe(fd)) exit(2);
    fflush(R.out); fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); if (!getenv("H_STDERR")) { int e = open("/dev/null", O_WRONLY); dup2(e, 2); }
        R.checks = R.fails = 0; R.groups.clear(); alarm(secs);
        f();
        std::string s = std::to_string(R.checks) + " " + std::to_string(R.fails) + "\n";
        for (auto &k : R.groups) s += std::to_string(k.second) + " " + k.first + "\n";
        size_t o = 0; while (o < s.size()) { ssize_t w = write(fd[1], s.data() + o, s.size() - o); if (w <= 0) break; o += w; }
        fflush(R.out); _exit(0);
    }
    close(fd[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n); close(fd[0]);
    int st; waitpid(pid, &st, 0);
    long c = 0, fl = 0; int pos = 0;
    if (sscanf(s.c_str(), "%ld %ld\n%n", &c, &fl, &pos) >= 2) {
        R.checks += c; R.fails += fl;
        std::string rest = s.substr(pos); size_t p = 0;
        while (p < rest.size()) { size_t q = rest.find('\n', p); std::string ln = rest.substr(p, q - p); size_t sp = ln.find(' '); R.groups[ln.substr(sp + 1)] += atol(ln.c_str()); p = q + 1; }
    }
    if (WIFSIGNALED(st)) R.bad(id + "/crash", str0("signal", WTERMSIG(st)));
    else if (s.empty()) R.bad(id + "/crash", str0("exit", WEXITSTATUS(st)));
}

// ---- plain dense helpers (independent of Element arithmetic)
inline Vd data(const Element &e) {
    const double *p = e.ObtainReadData();
    return Vd(p, p + e.Getlength());
}
inline double nrm(const Vd &a) { double s = 0; for (double x : a) s += x * x; return std::sqrt(s); }
inline double dotv(const Vd &a, const Vd &b) { if (a.size() != b.size()) return NAN; double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline double dist(const Vd &a, const Vd &b) { if (a.size() != b.size()) return INFINITY; double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
inline Vd comb(double a, const Vd &x, double b, const Vd &y) { Vd r(x.size()); for (size_t i = 0; i < x.size(); i++) r[i] = a * x[i] + b * y[i]; return r; }
inline void fill(Element &e, const Vd &v) { double *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
inline void randfill(Element &e, Rng &g, double s = 1) { double *p = e.ObtainWriteEntireData(); for (integer i = 0; i < e.Getlength(); i++) p[i] = s * g.n(); }
inline bool finite(const Vd &a) { for (double x : a) if (!std::isfinite(x)) return false; return true; }

// dense real / complex matrices
template <class T> struct Mx {
    int r, c; std::vector<T> a;
    Mx(int r_ = 0, int c_ = 0) : r(r_), c(c_), a((size_t)r_ * c_) {}
    T &operator()(int i, int j) { return a[i + (size_t)j * r]; }
    const T &operator()(int i, int j) const { return a[i + (size_t)j * r]; }
};
#include <complex>
#include <typeinfo>
typedef std::complex<double> cd;
inline double cj(double x) { return x; }
inline cd cj(cd x) { return std::conj(x); }
template <class T> Mx<T> operator*(const Mx<T> &A, const Mx<T> &B) { Mx<T> C(A.r, B.c); for (int j = 0; j < B.c; j++) for (int k = 0; k < A.c; k++) for (int i = 0; i < A.r; i++) C(i, j) += A(i, k) * B(k, j); return C; }
template <class T> Mx<T> operator+(const Mx<T> &A, const Mx<T> &B) { Mx<T> C(A); for (size_t i = 0; i < C.a.size(); i++) C.a[i] += B.a[i]; return C; }
template <class T> Mx<T> operator-(const Mx<T> &A, const Mx<T> &B) { Mx<T> C(A); for (size_t i = 0; i < C.a.size(); i++) C.a[i] -= B.a[i]; return C; }
template <class T> Mx<T> operator*(double s, const Mx<T> &B) { Mx<T> C(B); for (auto &x : C.a) x *= s; return C; }
template <class T> Mx<T> H(const Mx<T> &A) { Mx<T> C(A.c, A.r); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) C(j, i) = cj(A(i, j)); return C; }
template <class T> Mx<T> eyeM(int n) { Mx<T> C(n, n); for (int i = 0; i < n; i++) C(i, i) = 1; return C; }
template <class T> double fro(const Mx<T> &A) { double s = 0; for (auto &x : A.a) s += std::norm(cd(x)); return std::sqrt(s); }
template <class T> double re_dot(const Mx<T> &A, const Mx<T> &B) { double s = 0; for (size_t i = 0; i < A.a.size(); i++) s += std::real(cd(cj(A.a[i]) * B.a[i])); return s; }
template <class T> Mx<T> solve(Mx<T> A, Mx<T> B) { // A^{-1} B, partial pivoting
    int n = A.r;
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k; i < n; i++) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
        for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j));
        for (int j = 0; j < B.c; j++) std::swap(B(k, j), B(p, j));
        T d = A(k, k);
        for (int i = 0; i < n; i++) if (i != k) {
            T f = A(i, k) / d;
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < B.c; j++) B(i, j) -= f * B(k, j);
        }
    }
    for (int k = 0; k < n; k++) for (int j = 0; j < B.c; j++) B(k, j) /= A(k, k);
    return B;
}
template <class T> Mx<T> inv(const Mx<T> &A) { return solve(A, eyeM<T>(A.r)); }
inline Mx<cd> cplx(const Mx<double> &A) { Mx<cd> C(A.r, A.c); for (size_t i = 0; i < A.a.size(); i++) C.a[i] = A.a[i]; return C; }
template <class T> Mx<T> mx(const Element &e);
template <> inline Mx<double> mx<double>(const Element &e) { Mx<double> M(e.Getrow(), e.Getcol() * e.Getnum()); Vd d = data(e); M.a.assign(d.begin(), d.end()); return M; }
template <> inline Mx<cd> mx<cd>(const Element &e) { Mx<cd> M(e.Getrow(), e.Getcol() * e.Getnum()); Vd d = data(e); for (size_t i = 0; i < M.a.size(); i++) M.a[i] = cd(d[2 * i], d[2 * i + 1]); return M; }
inline void setmx(Element &e, const Mx<double> &M) { fill(e, Vd(M.a.begin(), M.a.end())); }
inline void setmx(Element &e, const Mx<cd> &M) { Vd d; for (auto &x : M.a) { d.push_back(x.real()); d.push_back(x.imag()); } fill(e, d); }
// symmetric Jacobi eigen decomposition (real), returns V diag(w) V'
inline void jacobi(Mx<double> A, Mx<double> &V, Vd &w) {
    int n = A.r; V = eyeM<double>(n);
    for (int sw = 0; sw < 60; sw++) {
        double off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += A(i, j) * A(i, j);
        if (off < 1e-28) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            if (std::fabs(A(p, q)) < 1e-300) continue;
            double t = 0.5 * std::atan2(2 * A(p, q), A(q, q) - A(p, p)), c = std::cos(t), s = std::sin(t);
            for (int k = 0; k < n; k++) { double a = A(k, p), b = A(k, q); A(k, p) = c * a - s * b; A(k, q) = s * a + c * b; }
            for (int k = 0; k < n; k++) { double a = A(p, k), b = A(q, k); A(p, k) = c * a - s * b; A(q, k) = s * a + c * b; }
            for (int k = 0; k < n; k++) { double a = V(k, p), b = V(k, q); V(k, p) = c * a - s * b; V(k, q) = s * a + c * b; }
        }
    }
    w.resize(n); for (int i = 0; i < n; i++) w[i] = A(i, i);
}
inline std::string str(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, 400, f, ap); va_end(ap); return b; }

#endif
