// Script interpreter over MoorDyn's public C API.
// usage: mdh SCRIPT OUT [SCRIPT OUT]...   (one command per line, JSON lines to OUT; several scripts run in one thread each)
#include "MoorDyn2.h"
extern "C" {
#include "MoorDyn.h"
}
#include <atomic>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <unistd.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using std::string;
using std::vector;

static thread_local FILE* out;
static thread_local std::map<string, MoorDyn> sys;
struct Buf { vector<uint64_t> d; size_t n = 0; };
static thread_local std::map<string, Buf> bufs;

static void num(double v)
{
	if (std::isnan(v)) fputs("NaN", out);
	else if (std::isinf(v)) fputs(v > 0 ? "Infinity" : "-Infinity", out);
	else fprintf(out, "%.17g", v);
}
static void arr(const double* v, size_t n)
{
	fputc('[', out);
	for (size_t i = 0; i < n; i++) { if (i) fputc(',', out); num(v[i]); }
	fputc(']', out);
}
static void key(const char* k, bool first = false) { fprintf(out, "%s\"%s\":", first ? "" : ",", k); }
static string esc(const string& s)
{
	string r;
	for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { r += ' '; continue; } r += c; }
	return r;
}

// Arrays handed to the library have exactly the advertised size: an access
// beyond is caught by ASan, or by the canaries in plain builds.
struct Arr {
	double* p; size_t n;
	static constexpr double CAN = -7.25e77;
	explicit Arr(size_t n_) : n(n_) {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EXACT 1
#endif
#endif
#ifdef EXACT
		p = (double*)malloc(n * sizeof(double) ? n * sizeof(double) : 1);
#else
		p = (double*)malloc((n + 16) * sizeof(double));
		for (size_t i = n; i < n + 16; i++) p[i] = CAN;
#endif
	}
	int over() const {
#ifdef EXACT
		return 0;
#else
		int c = 0; for (size_t i = n; i < n + 16; i++) if (p[i] != CAN) c++; return c;
#endif
	}
	~Arr() { free(p); }
	Arr(const Arr&) = delete;
};

template<class F> static void nodes3(const char* k, unsigned n, F f)
{
	key(k); fputc('[', out);
	for (unsigned i = 0; i < n; i++) {
		double v[3] = { NAN, NAN, NAN };
		int rc = f(i, v);
		if (i) fputc(',', out);
		if (rc) fprintf(out, "%d", rc); else arr(v, 3);
	}
	fputc(']', out);
}

static void dump(MoorDyn s, const string& what)
{
	unsigned n = 0;
	auto has = [&](char c) { return what == "all" || what.find(c) != string::npos; };
	if (has('L')) {
		key("lines"); fputc('[', out);
		MoorDyn_GetNumberLines(s, &n);
		for (unsigned i = 1; i <= n; i++) {
			MoorDynLine l = MoorDyn_GetLine(s, i);
			if (i > 1) fputc(',', out);
			int id = -99; unsigned N = 0, nn = 0; double ul = NAN, ft = NAN, mt = NAN, ea = NAN; int cea = -99, pb = -99;
			MoorDyn_GetLineID(l, &id); MoorDyn_GetLineN(l, &N); MoorDyn_GetLineNumberNodes(l, &nn);
			MoorDyn_GetLineUnstretchedLength(l, &ul); MoorDyn_GetLineFairTen(l, &ft); MoorDyn_GetLineMaxTen(l, &mt);
			MoorDyn_IsLineConstantEA(l, &cea); MoorDyn_GetLineConstantEA(l, &ea); MoorDyn_IsLinePressBend(l, &pb);
			fprintf(out, "{\"id\":%d,\"N\":%u,\"nn\":%u,\"cea\":%d,\"pb\":%d", id, N, nn, cea, pb);
			key("ul"); num(ul); key("ft"); num(ft); key("mt"); num(mt); key("ea"); num(ea);
			nodes3("pos", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodePos(l, k, v); });
			nodes3("vel", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeVel(l, k, v); });
			nodes3("F", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeForce(l, k, v); });
			nodes3("T", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeTen(l, k, v); });
			nodes3("Bs", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeBendStiff(l, k, v); });
			nodes3("W", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeWeight(l, k, v); });
			nodes3("D", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeDrag(l, k, v); });
			nodes3("A", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeFroudeKrilov(l, k, v); });
			nodes3("B", nn, [&](unsigned k, double* v) { return MoorDyn_GetLineNodeSeabedForce(l, k, v); });
			key("curv"); fputc('[', out);
			for (unsigned k = 0; k < nn; k++) { double c = NAN; MoorDyn_GetLineNodeCurv(l, k, &c); if (k) fputc(',', out); num(c); }
			fputc(']', out);
			key("M"); fputc('[', out);
			for (unsigned k = 0; k < nn; k++) { double m[3][3]; for (auto& r : m) for (double& x : r) x = NAN; MoorDyn_GetLineNodeM(l, k, m); if (k) fputc(',', out); arr(&m[0][0], 9); }
			fputs("]}", out);
		}
		fputc(']', out);
	}
	if (has('P')) {
		key("points"); fputc('[', out);
		MoorDyn_GetNumberPoints(s, &n);
		for (unsigned i = 1; i <= n; i++) {
			MoorDynPoint p = MoorDyn_GetPoint(s, i);
			if (i > 1) fputc(',', out);
			int id = -99, ty = -99; unsigned na = 0; double x[3] = { NAN, NAN, NAN }, v[3] = { NAN, NAN, NAN }, f[3] = { NAN, NAN, NAN }, m[3][3];
			for (auto& r : m) for (double& y : r) y = NAN;
			MoorDyn_GetPointID(p, &id); MoorDyn_GetPointType(p, &ty); MoorDyn_GetPointPos(p, x); MoorDyn_GetPointVel(p, v);
			MoorDyn_GetPointForce(p, f); MoorDyn_GetPointM(p, m); MoorDyn_GetPointNAttached(p, &na);
			fprintf(out, "{\"id\":%d,\"type\":%d", id, ty);
			key("pos"); arr(x, 3); key("vel"); arr(v, 3); key("F"); arr(f, 3); key("M"); arr(&m[0][0], 9);
			key("att"); fputc('[', out);
			for (unsigned k = 0; k < na; k++) {
				MoorDynLine l = NULL; int e = -99; MoorDyn_GetPointAttached(p, k, &l, &e);
				int lid = -99; if (l) MoorDyn_GetLineID(l, &lid);
				fprintf(out, "%s[%d,%d]", k ? "," : "", lid, e);
			}
			fputs("]}", out);
		}
		fputc(']', out);
	}
	if (has('R')) {
		key("rods"); fputc('[', out);
		MoorDyn_GetNumberRods(s, &n);
		for (unsigned i = 1; i <= n; i++) {
			MoorDynRod r = MoorDyn_GetRod(s, i);
			if (i > 1) fputc(',', out);
			int id = -99, ty = -99; unsigned N = 0, nn = 0; double f[6], m[6][6];
			for (double& y : f) y = NAN; for (auto& q : m) for (double& y : q) y = NAN;
			MoorDyn_GetRodID(r, &id); MoorDyn_GetRodType(r, &ty); MoorDyn_GetRodN(r, &N); MoorDyn_GetRodNumberNodes(r, &nn);
			MoorDyn_GetRodForce(r, f); MoorDyn_GetRodM(r, m);
			fprintf(out, "{\"id\":%d,\"type\":%d,\"N\":%u,\"nn\":%u", id, ty, N, nn);
			key("F"); arr(f, 6); key("M"); arr(&m[0][0], 36);
			nodes3("pos", nn, [&](unsigned k, double* v) { return MoorDyn_GetRodNodePos(r, k, v); });
			nodes3("vel", nn, [&](unsigned k, double* v) { return MoorDyn_GetRodNodeVel(r, k, v); });
			fputc('}', out);
		}
		fputc(']', out);
	}
	if (has('B')) {
		key("bodies"); fputc('[', out);
		MoorDyn_GetNumberBodies(s, &n);
		for (unsigned i = 1; i <= n; i++) {
			MoorDynBody b = MoorDyn_GetBody(s, i);
			if (i > 1) fputc(',', out);
			int id = -99, ty = -99; double r[6], rd[6], p[3], a[3], v[3], w[3], f[6], m[6][6];
			for (double& y : f) y = NAN; for (auto& q : m) for (double& y : q) y = NAN;
			for (int k = 0; k < 6; k++) r[k] = rd[k] = NAN;
			for (int k = 0; k < 3; k++) p[k] = a[k] = v[k] = w[k] = NAN;
			MoorDyn_GetBodyID(b, &id); MoorDyn_GetBodyType(b, &ty); MoorDyn_GetBodyState(b, r, rd);
			MoorDyn_GetBodyPos(b, p); MoorDyn_GetBodyAngle(b, a); MoorDyn_GetBodyVel(b, v); MoorDyn_GetBodyAngVel(b, w);
			MoorDyn_GetBodyForce(b, f); MoorDyn_GetBodyM(b, m);
			fprintf(out, "{\"id\":%d,\"type\":%d", id, ty);
			key("r"); arr(r, 6); key("rd"); arr(rd, 6); key("pos"); arr(p, 3); key("ang"); arr(a, 3); key("vel"); arr(v, 3); key("om"); arr(w, 3);
			key("F"); arr(f, 6); key("M"); arr(&m[0][0], 36);
			fputc('}', out);
		}
		fputc(']', out);
	}
	if (has('C')) {
		double dt = NAN, cfl = NAN; char name[256] = ""; size_t len = 0; unsigned nd = 0;
		MoorDyn_GetDt(s, &dt); MoorDyn_GetCFL(s, &cfl); MoorDyn_GetTimeScheme(s, name, &len); MoorDyn_NCoupledDOF(s, &nd);
		key("dt"); num(dt); key("cfl"); num(cfl); fprintf(out, ",\"scheme\":\"%s\",\"slen\":%zu,\"ndof\":%u", esc(name).c_str(), len, nd);
	}
}

// Every public function with null handles and indices out of range. Each record: name, kind, return code
// (pointers: -1 for NULL, 0 otherwise). "null"/"index"/"value" calls must fail, "ok" calls must succeed.
static void misuse(MoorDyn s, bool arrays)
{
	bool first = true;
	auto put = [&](const char* nm, const char* kind, long rc) {
		fprintf(out, "%s[\"%s\",\"%s\",%ld]", first ? "" : ",", nm, kind, rc); first = false; fflush(out);
	};
	struct G { double v[64]; G() { for (double& x : v) x = -7.25e77; } bool same() const { for (double x : v) if (x != -7.25e77) return false; return true; } };
	unsigned u = 77; int I = 77; double d = -7.25e77; double m3[3][3], m6[6][6]; size_t z = 0; MoorDynLine ln = NULL; char nm[256] = ""; float F[4] = { 0 };
	key("calls"); fputc('[', out);
#define NUL(f, ...) put(#f, "null", f(NULL, ##__VA_ARGS__))
#define PNUL(f, ...) put(#f, "null", f(NULL, ##__VA_ARGS__) ? 0 : -1)
	G g, g2;
	double t = 0, dt = .1;
	NUL(MoorDyn_NCoupledDOF, &u); NUL(MoorDyn_SetVerbosity, 1); NUL(MoorDyn_SetLogFile, "x.log"); NUL(MoorDyn_SetLogLevel, 1); NUL(MoorDyn_Log, 1, "x");
	NUL(MoorDyn_Init, g.v, g.v); NUL(MoorDyn_Init_NoIC, g.v, g.v); NUL(MoorDyn_Step, g.v, g.v, g.v, &t, &dt); NUL(MoorDyn_Close);
	PNUL(MoorDyn_GetWaves); PNUL(MoorDyn_GetSeafloor); NUL(MoorDyn_ExternalWaveKinInit, &u); NUL(MoorDyn_ExternalWaveKinGetN, &u);
	NUL(MoorDyn_ExternalWaveKinGetCoordinates, g.v); NUL(MoorDyn_ExternalWaveKinSet, g.v, g.v, 0.0);
	NUL(MoorDyn_GetNumberBodies, &u); NUL(MoorDyn_GetNumberRods, &u); NUL(MoorDyn_GetNumberPoints, &u); NUL(MoorDyn_GetNumberLines, &u);
	PNUL(MoorDyn_GetBody, 1); PNUL(MoorDyn_GetRod, 1); PNUL(MoorDyn_GetPoint, 1); PNUL(MoorDyn_GetLine, 1);
	I = 1; NUL(MoorDyn_GetFASTtens, &I, F, F, F, F);
	NUL(MoorDyn_GetDt, &d); NUL(MoorDyn_SetDt, .1); NUL(MoorDyn_GetCFL, &d); NUL(MoorDyn_SetCFL, .1); NUL(MoorDyn_GetTimeScheme, nm, &z); NUL(MoorDyn_SetTimeScheme, "rk2");
	NUL(MoorDyn_Serialize, &z, NULL); uint64_t dummy[8] = { 8 }; NUL(MoorDyn_Deserialize, dummy); NUL(MoorDyn_Save, "x.sav"); NUL(MoorDyn_Load, "x.sav"); NUL(MoorDyn_SaveVTK, "x.vtm");
	NUL(MoorDyn_GetLineID, &I); NUL(MoorDyn_GetLineN, &u); NUL(MoorDyn_GetLineNumberNodes, &u); NUL(MoorDyn_GetLineUnstretchedLength, &d); NUL(MoorDyn_SetLineUnstretchedLength, 1.0);
	NUL(MoorDyn_SetLineUnstretchedLengthVel, 1.0); NUL(MoorDyn_IsLineConstantEA, &I); NUL(MoorDyn_GetLineConstantEA, &d); NUL(MoorDyn_SetLineConstantEA, 1.0); NUL(MoorDyn_IsLinePressBend, &I);
	NUL(MoorDyn_SetLinePressBend, 1); NUL(MoorDyn_SetLinePressInt, g.v);
#define NODES(X) X(Pos) X(Vel) X(Force) X(Ten) X(BendStiff) X(Weight) X(Drag) X(FroudeKrilov) X(SeabedForce) X(Curv)
#define X(q) NUL(MoorDyn_GetLineNode##q, 0, g.v);
	NODES(X)
#undef X
	NUL(MoorDyn_GetLineNodeM, 0, m3); NUL(MoorDyn_GetLineFairTen, &d); NUL(MoorDyn_GetLineMaxTen, &d); NUL(MoorDyn_SaveLineVTK, "x.vtp");
	NUL(MoorDyn_GetBodyID, &I); NUL(MoorDyn_GetBodyType, &I); NUL(MoorDyn_GetBodyState, g.v, g.v); NUL(MoorDyn_GetBodyPos, g.v); NUL(MoorDyn_GetBodyAngle, g.v); NUL(MoorDyn_GetBodyVel, g.v);
	NUL(MoorDyn_GetBodyAngVel, g.v); NUL(MoorDyn_GetBodyForce, g.v); NUL(MoorDyn_GetBodyM, m6); NUL(MoorDyn_SaveBodyVTK, "x.vtp"); NUL(MoorDyn_UseBodyVTK, "x.stl");
	NUL(MoorDyn_GetRodID, &I); NUL(MoorDyn_GetRodType, &I); NUL(MoorDyn_GetRodForce, g.v); NUL(MoorDyn_GetRodM, m6); NUL(MoorDyn_GetRodN, &u); NUL(MoorDyn_GetRodNumberNodes, &u);
	NUL(MoorDyn_GetRodNodePos, 0, g.v); NUL(MoorDyn_GetRodNodeVel, 0, g.v); NUL(MoorDyn_SaveRodVTK, "x.vtp");
	NUL(MoorDyn_GetPointID, &I); NUL(MoorDyn_GetPointType, &I); NUL(MoorDyn_GetPointPos, g.v); NUL(MoorDyn_GetPointVel, g.v); NUL(MoorDyn_GetPointForce, g.v); NUL(MoorDyn_GetPointM, m3);
	NUL(MoorDyn_GetPointNAttached, &u); NUL(MoorDyn_GetPointAttached, 0, &ln, &I); NUL(MoorDyn_SavePointVTK, "x.vtp");
	NUL(MoorDyn_GetDepthAt, 0.0, 0.0, &d); NUL(MoorDyn_GetAverageDepth, &d); NUL(MoorDyn_GetMinDepth, &d); NUL(MoorDyn_GetWavesKin, 0.0, 0.0, -1.0, g.v, g.v, &d, &d, (MoorDynSeafloor)NULL);
	put("untouched", "ok", g.same() ? 0 : 1);
	if (s) {
		unsigned nb = 0, nr = 0, np = 0, nl = 0;
		MoorDyn_GetNumberBodies(s, &nb); MoorDyn_GetNumberRods(s, &nr); MoorDyn_GetNumberPoints(s, &np); MoorDyn_GetNumberLines(s, &nl);
		auto beyond = [](unsigned n) { return vector<unsigned>{ n + 1, n + 2, 2 * n + 7, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x40000001u }; };
#define LOOK(T, n) put("MoorDyn_Get" #T, "index", MoorDyn_Get##T(s, 0) ? 0 : -1); for (unsigned q : beyond(n)) put("MoorDyn_Get" #T, "index", MoorDyn_Get##T(s, q) ? 0 : -1); \
		for (unsigned q = 1; q <= n; q++) { int id = -7; auto o = MoorDyn_Get##T(s, q); put("MoorDyn_Get" #T, "ok", o && !MoorDyn_Get##T##ID(o, &id) && id == (int)q ? 0 : 1); }
		LOOK(Body, nb) LOOK(Rod, nr) LOOK(Point, np) LOOK(Line, nl)
		for (unsigned k = 1; k <= nl; k++) {
			MoorDynLine l = MoorDyn_GetLine(s, k); unsigned N = 0, NN = 0; MoorDyn_GetLineN(l, &N); MoorDyn_GetLineNumberNodes(l, &NN); put("MoorDyn_GetLineNumberNodes", "ok", NN == N + 1 ? 0 : 1);
			for (unsigned q : beyond(N)) {
#define X(w) put("MoorDyn_GetLineNode" #w, "index", MoorDyn_GetLineNode##w(l, q, g2.v));
				NODES(X)
#undef X
				put("MoorDyn_GetLineNodeM", "index", MoorDyn_GetLineNodeM(l, q, m3));
			}
			for (unsigned q : { 0u, N }) {
#define X(w) put("MoorDyn_GetLineNode" #w, "ok", MoorDyn_GetLineNode##w(l, q, g.v));
				NODES(X)
#undef X
				put("MoorDyn_GetLineNodeM", "ok", MoorDyn_GetLineNodeM(l, q, m3));
			}
		}
		for (unsigned k = 1; k <= nr; k++) {
			MoorDynRod r = MoorDyn_GetRod(s, k); unsigned N = 0, NN = 0; MoorDyn_GetRodN(r, &N); MoorDyn_GetRodNumberNodes(r, &NN); put("MoorDyn_GetRodNumberNodes", "ok", NN == N + 1 ? 0 : 1);
			for (unsigned q : beyond(N)) { put("MoorDyn_GetRodNodePos", "index", MoorDyn_GetRodNodePos(r, q, g2.v)); put("MoorDyn_GetRodNodeVel", "index", MoorDyn_GetRodNodeVel(r, q, g2.v)); }
			for (unsigned q : { 0u, N }) { put("MoorDyn_GetRodNodePos", "ok", MoorDyn_GetRodNodePos(r, q, g.v)); put("MoorDyn_GetRodNodeVel", "ok", MoorDyn_GetRodNodeVel(r, q, g.v)); }
		}
		for (unsigned k = 1; k <= np; k++) {
			MoorDynPoint p = MoorDyn_GetPoint(s, k); unsigned n = 0; MoorDyn_GetPointNAttached(p, &n); MoorDynLine o = NULL; int e = -9;
			for (unsigned q : beyond(n)) { MoorDynLine o2 = NULL; int e2 = -9; put("MoorDyn_GetPointAttached", "index", MoorDyn_GetPointAttached(p, q, &o2, &e2)); if (o2 || e2 != -9) put("MoorDyn_GetPointAttached output", "ok", 1); }
			{ MoorDynLine o2 = NULL; int e2 = -9; put("MoorDyn_GetPointAttached", "index", MoorDyn_GetPointAttached(p, n, &o2, &e2)); }
			for (unsigned q = 0; q < n; q++) put("MoorDyn_GetPointAttached", "ok", MoorDyn_GetPointAttached(p, q, &o, &e));
		}
		for (int n : { (int)nl + 1, -1, (int)nl + 1000, (int)0x80000000 }) put("MoorDyn_GetFASTtens", "index", MoorDyn_GetFASTtens(s, &n, F, F, F, F));
		for (const char* n : { "", "foo", "rk", "rk7", "beuler", "aca", "midpointx", "wilson", "anderson", "ab", "Euler2" }) put("MoorDyn_SetTimeScheme", "value", MoorDyn_SetTimeScheme(s, n));
		put("MoorDyn_Load", "value", MoorDyn_Load(s, "no-such-file.sav")); put("MoorDyn_Save", "value", MoorDyn_Save(s, "no-such-folder/x.sav"));
		for (double v : { 0.0, -1.0, (double)NAN }) { put("MoorDyn_SetDt", "value", MoorDyn_SetDt(s, v)); put("MoorDyn_SetCFL", "value", MoorDyn_SetCFL(s, v)); }
		unsigned nd = 0; MoorDyn_NCoupledDOF(s, &nd);
		if (arrays && nd) {
			Arr x(nd), f(nd); for (unsigned i = 0; i < nd; i++) { x.p[i] = 0; f.p[i] = 0; }
			t = 1; dt = 1e-3;
			put("MoorDyn_Step", "null", MoorDyn_Step(s, NULL, x.p, f.p, &t, &dt)); put("MoorDyn_Step", "null", MoorDyn_Step(s, x.p, NULL, f.p, &t, &dt)); put("MoorDyn_Step", "null", MoorDyn_Step(s, x.p, x.p, NULL, &t, &dt));
			put("MoorDyn_Step", "null", MoorDyn_Step(s, NULL, NULL, NULL, &t, &dt)); dt = 0; put("MoorDyn_Step", "null", MoorDyn_Step(s, x.p, x.p, NULL, &t, &dt));
		}
		put("outputs", "ok", g2.same() ? 0 : 1);
	}
	fputc(']', out);
}

static void exec(const string& line)
{
	std::istringstream is(line);
	string cmd, id;
	is >> cmd;
	if (cmd.empty() || cmd[0] == '#') return;
	is >> id;
	auto S = [&]() -> MoorDyn { auto it = sys.find(id); return it == sys.end() ? NULL : it->second; };
	auto rd = [&](Arr& a) { for (size_t i = 0; i < a.n; i++) { string t; is >> t; a.p[i] = strtod(t.c_str(), NULL); } };
	auto dbl = [&]() { string t; is >> t; return strtod(t.c_str(), NULL); };
	fprintf(out, "{\"c\":\"%s\",\"s\":\"%s\"", cmd.c_str(), esc(id).c_str());
	fflush(out);
	int rc = 0;
	auto RC = [&]() { fprintf(out, ",\"rc\":%d", rc); };
	if (cmd == "create") {
		string p; is >> p;
		MoorDyn m = MoorDyn_Create(p.c_str());
		if (m) { sys[id] = m; MoorDyn_SetVerbosity(m, MOORDYN_NO_OUTPUT); }
		fprintf(out, ",\"ok\":%d", m ? 1 : 0);
		if (m) { unsigned n = 0; rc = MoorDyn_NCoupledDOF(m, &n); fprintf(out, ",\"ndof\":%u", n); }
		RC();
	} else if (cmd == "init" || cmd == "initnoic") {
		long n; is >> n;
		Arr x(n < 0 ? 0 : n), xd(n < 0 ? 0 : n); rd(x); rd(xd);
		double* px = n < 0 ? NULL : x.p; double* pv = n < 0 ? NULL : xd.p;
		rc = cmd == "init" ? MoorDyn_Init(S(), px, pv) : MoorDyn_Init_NoIC(S(), px, pv);
		fprintf(out, ",\"over\":%d", x.over() + xd.over()); RC();
	} else if (cmd == "step") {
		double t = dbl(), dt = dbl(); long n; is >> n;
		Arr x(n < 0 ? 0 : n), xd(n < 0 ? 0 : n), f(n < 0 ? 0 : n); rd(x); rd(xd);
		for (size_t i = 0; i < f.n; i++) f.p[i] = NAN;
		double t0 = t, dt0 = dt;
		rc = MoorDyn_Step(S(), n < 0 ? NULL : x.p, n < 0 ? NULL : xd.p, n < 0 ? NULL : f.p, &t, &dt);
		key("t0"); num(t0); key("dt0"); num(dt0); key("t"); num(t); key("dt"); num(dt); key("f"); arr(f.p, f.n);
		fprintf(out, ",\"over\":%d", x.over() + xd.over() + f.over()); RC();
	} else if (cmd == "dump") {
		string w; is >> w; if (w.empty()) w = "all";
		if (S()) dump(S(), w);
	} else if (cmd == "verb") { rc = MoorDyn_SetVerbosity(S(), (int)dbl()); RC(); }
	else if (cmd == "logfile") { string p; is >> p; rc = MoorDyn_SetLogFile(S(), p.c_str()); RC(); }
	else if (cmd == "loglevel") { rc = MoorDyn_SetLogLevel(S(), (int)dbl()); RC(); }
	else if (cmd == "log") { int lv = (int)dbl(); string m; is >> m; rc = MoorDyn_Log(S(), lv, m.c_str()); RC(); }
	else if (cmd == "save") { string p; is >> p; rc = MoorDyn_Save(S(), p.c_str()); RC(); }
	else if (cmd == "load") { string p; is >> p; rc = MoorDyn_Load(S(), p.c_str()); RC(); }
	else if (cmd == "ser") {
		string b; is >> b; size_t n = 0;
		rc = MoorDyn_Serialize(S(), &n, NULL);
		Buf& B = bufs[b]; B.n = n; B.d.assign(n / 8 + 1 , 0xA5A5A5A5A5A5A5A5ull);
		// size is in bytes
		uint64_t* p = (uint64_t*)malloc(n ? n : 1);
		size_t n2 = 0;
		if (!rc) rc = MoorDyn_Serialize(S(), &n2, p);
		B.d.resize(n / 8); if (n / 8) memcpy(B.d.data(), p, (n / 8) * 8); free(p);
		uint64_t h = 1469598103934665603ull; for (uint64_t v : B.d) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
		fprintf(out, ",\"size\":%zu,\"size2\":%zu,\"hash\":\"%016llx\"", n, n2, (unsigned long long)h); RC();
	} else if (cmd == "deser") {
		string b; is >> b; Buf& B = bufs[b];
		uint64_t* p = (uint64_t*)malloc(B.d.size() * 8 + 1); if (B.d.size()) memcpy(p, B.d.data(), B.d.size() * 8);
		rc = MoorDyn_Deserialize(S(), p); free(p); RC();
	} else if (cmd == "ewinit") { unsigned n = 0; rc = MoorDyn_ExternalWaveKinInit(S(), &n); fprintf(out, ",\"n\":%u", n); RC(); }
	else if (cmd == "ewn") { unsigned n = 0; rc = MoorDyn_ExternalWaveKinGetN(S(), &n); fprintf(out, ",\"n\":%u", n); RC(); }
	else if (cmd == "ewcoords") { long n; is >> n; Arr r(3 * n); rc = MoorDyn_ExternalWaveKinGetCoordinates(S(), r.p); key("r"); arr(r.p, r.n); fprintf(out, ",\"over\":%d", r.over()); RC(); }
	else if (cmd == "ewset") { double t = dbl(); long n; is >> n; Arr U(3 * n), Ud(3 * n); rd(U); rd(Ud); rc = MoorDyn_ExternalWaveKinSet(S(), U.p, Ud.p, t); RC(); }
	else if (cmd == "wave") {
		double x = dbl(), y = dbl(), z = dbl(); int usf = (int)dbl();
		double U[3] = { NAN, NAN, NAN }, Ud[3] = { NAN, NAN, NAN }, zeta = NAN, pd = NAN;
		MoorDynWaves w = MoorDyn_GetWaves(S());
		rc = MoorDyn_GetWavesKin(w, x, y, z, U, Ud, &zeta, &pd, usf ? MoorDyn_GetSeafloor(S()) : NULL);
		double xyz[3] = { x, y, z }; key("p"); arr(xyz, 3);
		key("U"); arr(U, 3); key("Ud"); arr(Ud, 3); key("zeta"); num(zeta); key("pd"); num(pd); RC();
	} else if (cmd == "wk") { // water kinematics reported at every node: [U3,Ud3,zeta,pd,depth]
		MoorDynWaves w = MoorDyn_GetWaves(S()); MoorDynSeafloor sf = MoorDyn_GetSeafloor(S());
		unsigned n = 0, nn = 0;
		auto one = [&](double* p) {
			double v[9]; for (double& q : v) q = NAN;
			if (w) MoorDyn_GetWavesKin(w, p[0], p[1], p[2], v, v + 3, v + 6, v + 7, sf);
			if (sf) MoorDyn_GetDepthAt(sf, p[0], p[1], v + 8);
			arr(v, 9);
		};
		double p[3];
		MoorDyn_GetNumberLines(S(), &n); key("L"); fputc('[', out);
		for (unsigned i = 1; i <= n; i++) { MoorDynLine l = MoorDyn_GetLine(S(), i); MoorDyn_GetLineNumberNodes(l, &nn); fputs(i > 1 ? ",[" : "[", out);
			for (unsigned k = 0; k < nn; k++) { MoorDyn_GetLineNodePos(l, k, p); if (k) fputc(',', out); one(p); } fputc(']', out); }
		fputc(']', out);
		MoorDyn_GetNumberRods(S(), &n); key("R"); fputc('[', out);
		for (unsigned i = 1; i <= n; i++) { MoorDynRod l = MoorDyn_GetRod(S(), i); MoorDyn_GetRodNumberNodes(l, &nn); fputs(i > 1 ? ",[" : "[", out);
			for (unsigned k = 0; k < nn; k++) { MoorDyn_GetRodNodePos(l, k, p); if (k) fputc(',', out); one(p); } fputc(']', out); }
		fputc(']', out);
		MoorDyn_GetNumberPoints(S(), &n); key("P"); fputc('[', out);
		for (unsigned i = 1; i <= n; i++) { MoorDynPoint l = MoorDyn_GetPoint(S(), i); MoorDyn_GetPointPos(l, p); if (i > 1) fputc(',', out); one(p); }
		fputc(']', out);
		MoorDyn_GetNumberBodies(S(), &n); key("B"); fputc('[', out);
		for (unsigned i = 1; i <= n; i++) { MoorDynBody l = MoorDyn_GetBody(S(), i); MoorDyn_GetBodyPos(l, p); if (i > 1) fputc(',', out); one(p); }
		fputc(']', out);
	} else if (cmd == "depth") {
		double x = dbl(), y = dbl(), d = NAN; MoorDynSeafloor sf = MoorDyn_GetSeafloor(S());
		fprintf(out, ",\"sf\":%d", sf ? 1 : 0);
		if (sf) rc = MoorDyn_GetDepthAt(sf, x, y, &d);
		key("x"); num(x); key("y"); num(y); key("d"); num(d); RC();
	} else if (cmd == "sfstat") {
		double a = NAN, b = NAN; MoorDynSeafloor sf = MoorDyn_GetSeafloor(S());
		if (sf) { rc = MoorDyn_GetAverageDepth(sf, &a); if (!rc) rc = MoorDyn_GetMinDepth(sf, &b); }
		fprintf(out, ",\"sf\":%d", sf ? 1 : 0); key("avg"); num(a); key("min"); num(b); RC();
	} else if (cmd == "setul") { int l = (int)dbl(); rc = MoorDyn_SetLineUnstretchedLength(MoorDyn_GetLine(S(), l), dbl()); RC(); }
	else if (cmd == "setulv") { int l = (int)dbl(); rc = MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(S(), l), dbl()); RC(); }
	else if (cmd == "setea") { int l = (int)dbl(); rc = MoorDyn_SetLineConstantEA(MoorDyn_GetLine(S(), l), dbl()); RC(); }
	else if (cmd == "pb") { int l = (int)dbl(); rc = MoorDyn_SetLinePressBend(MoorDyn_GetLine(S(), l), (int)dbl()); RC(); }
	else if (cmd == "pint") { int l = (int)dbl(); long n; is >> n; Arr p(n); rd(p); rc = MoorDyn_SetLinePressInt(MoorDyn_GetLine(S(), l), p.p); RC(); }
	else if (cmd == "misuse") misuse(S(), dbl() > 0);
	else if (cmd == "initnull") { int k = (int)dbl(); unsigned n = 0; MoorDyn_NCoupledDOF(S(), &n); Arr x(n); for (size_t i = 0; i < n; i++) x.p[i] = 0; rc = MoorDyn_Init(S(), k & 1 ? x.p : NULL, k & 2 ? x.p : NULL); RC(); }
	else if (cmd == "setdt") { rc = MoorDyn_SetDt(S(), dbl()); RC(); }
	else if (cmd == "setcfl") { rc = MoorDyn_SetCFL(S(), dbl()); RC(); }
	else if (cmd == "scheme") { string nm; is >> nm; rc = MoorDyn_SetTimeScheme(S(), nm.c_str()); RC(); }
	else if (cmd == "fast") {
		long n; is >> n; int ni = (int)n; vector<float> a(n, -1), b(n, -1), c(n, -1), d(n, -1);
		rc = MoorDyn_GetFASTtens(S(), &ni, a.data(), b.data(), c.data(), d.data());
		vector<double> v; for (auto* q : { &a, &b, &c, &d }) for (float z : *q) v.push_back(z);
		key("v"); arr(v.data(), v.size()); RC();
	} else if (cmd == "close") { auto it = sys.find(id); rc = MoorDyn_Close(S()); if (it != sys.end()) sys.erase(it); RC(); }
	else if (cmd == "vtk") { string p; is >> p; rc = MoorDyn_SaveVTK(S(), p.c_str()); RC(); }
	else if (cmd == "wavenum") { double o = strtod(id.c_str(), NULL), g = dbl(), h = dbl(); double k = WaveNumber(o, g, h); key("o"); num(o); key("g"); num(g); key("h"); num(h); key("k"); num(k); }
	else if (cmd == "v1init") { string p; is >> p; long n; is >> n; Arr x(n), xd(n); rd(x); rd(xd); rc = MoorDynInit(x.p, xd.p, p.c_str()); RC(); }
	else if (cmd == "v1step") {
		double t = dbl(), dt = dbl(); long n; is >> n; Arr x(n), xd(n), f(n); rd(x); rd(xd);
		for (size_t i = 0; i < f.n; i++) f.p[i] = NAN;
		rc = MoorDynStep(x.p, xd.p, f.p, &t, &dt); key("t"); num(t); key("dt"); num(dt); key("f"); arr(f.p, f.n); fprintf(out, ",\"over\":%d", x.over() + xd.over() + f.over()); RC();
	} else if (cmd == "v1close") { rc = MoorDynClose(); RC(); }
	else if (cmd == "v1fair") { int l = (int)dbl(); key("v"); num(GetFairTen(l)); }
	else if (cmd == "v1node") { int l = (int)dbl(), k = (int)dbl(); double p[3] = { NAN, NAN, NAN }; rc = GetNodePos(l, k, p); key("v"); arr(p, 3); RC(); }
	else if (cmd == "v1ppos") { int l = (int)dbl(); double p[3] = { NAN, NAN, NAN }; rc = GetPointPos(l, p); key("v"); arr(p, 3); RC(); }
	else if (cmd == "v1pforce") { int l = (int)dbl(); double p[3] = { NAN, NAN, NAN }; rc = GetPointForce(l, p); key("v"); arr(p, 3); RC(); }
	else if (cmd == "v1fast") {
		long n; is >> n; int ni = (int)n; vector<float> a(n, -1), b(n, -1), c(n, -1), d(n, -1);
		rc = GetFASTtens(&ni, a.data(), b.data(), c.data(), d.data());
		vector<double> v; for (auto* q : { &a, &b, &c, &d }) for (float z : *q) v.push_back(z);
		key("v"); arr(v.data(), v.size()); RC();
	} else if (cmd == "v1ewinit") { rc = externalWaveKinInit(); fprintf(out, ",\"n\":%d", rc); }
	else if (cmd == "v1ewcoords") { long n; is >> n; Arr r(3 * n); getWaveKinCoordinates(r.p); key("r"); arr(r.p, r.n); }
	else if (cmd == "v1ewset") { double t = dbl(); long n; is >> n; Arr U(3 * n), Ud(3 * n); rd(U); rd(Ud); setWaveKin(U.p, Ud.p, t); }
	else if (cmd == "cd") { rc = chdir(id.c_str()); RC(); }
	else if (cmd == "drive") { // whatever deck was accepted: initialise, step and query it
		int ic = (int)dbl(), ns = (int)dbl(); long n; is >> n; vector<double> g(n); for (double& q : g) q = dbl();
		MoorDyn s = S(); fprintf(out, ",\"ok\":%d", s ? 1 : 0);
		if (s) {
			unsigned nd = 0; MoorDyn_NCoupledDOF(s, &nd);
			Arr x(nd), xd(nd), f(nd); for (unsigned i = 0; i < nd; i++) { x.p[i] = i < g.size() ? g[i] : 0.0; xd.p[i] = 0.0; f.p[i] = 0.0; }
			rc = ic ? MoorDyn_Init(s, x.p, xd.p) : MoorDyn_Init_NoIC(s, x.p, xd.p);
			fprintf(out, ",\"ndof\":%u,\"irc\":%d", nd, rc); fflush(out);
			double dt = NAN; MoorDyn_GetDt(s, &dt); key("dt"); num(dt);
			double t = 0, h = dt > 0 && dt < 1e-2 ? dt : 1e-2; int k = 0;
			if (!rc) for (; k < ns; k++) { double h2 = h; rc = MoorDyn_Step(s, x.p, xd.p, f.p, &t, &h2); if (rc) break; }
			fprintf(out, ",\"steps\":%d,\"over\":%d", k, x.over() + xd.over() + f.over()); fflush(out);
			dump(s, "all");
		}
		RC();
	}
	else if (cmd == "junk") { // churn and dirty the heap
		unsigned sd = (unsigned)dbl(); vector<char*> v; for (int i = 0; i < 4000; i++) { sd = sd * 1664525u + 1013904223u; size_t z = 16 + (sd >> 20); char* c = (char*)malloc(z); memset(c, (int)(sd >> 8), z); v.push_back(c); } for (char* c : v) free(c);
	} else { fprintf(out, ",\"unknown\":1"); }
	fputs("}\n", out);
	fflush(out);
}

static int play(const char* script, const char* res)
{
	std::ifstream in(script);
	out = fopen(res, "w");
	if (!in || !out) return 65;
	string line;
	while (std::getline(in, line)) {
		try { exec(line); }
		catch (const std::exception& e) { fprintf(out, ",\"exc\":\"%s\"}\n", esc(e.what()).c_str()); fflush(out); }
		catch (const char* e) { fprintf(out, ",\"exc\":\"%s\"}\n", esc(e).c_str()); fflush(out); }
		catch (...) { fprintf(out, ",\"exc\":\"?\"}\n"); fflush(out); }
	}
	fprintf(out, "{\"c\":\"end\"}\n");
	fclose(out);
	return 0;
}

int main(int argc, char** argv)
{
	if (argc < 3) return 64;
	if (argc == 3) return play(argv[1], argv[2]);
	std::atomic<int> ready{ 0 }, bad{ 0 };
	const int nt = (argc - 1) / 2;
	vector<std::thread> th;
	for (int i = 0; i < nt; i++)
		th.emplace_back([&, i]() {
			ready++;
			while (ready < nt) std::this_thread::yield();
			if (play(argv[1 + 2 * i], argv[2 + 2 * i])) bad++;
		});
	for (auto& t : th) t.join();
	return bad ? 65 : 0;
}
