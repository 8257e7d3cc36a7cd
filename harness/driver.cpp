// Command driver: executes one JSON command per input line against the real
// fisx library and reports what the library answered, one JSON line each.
//   request : ["op", arg, ...]
//   reply   : {"ok": value} | {"err": [type, message]} | {"harness": message}
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <memory>
#include <thread>
#include <atomic>
#include <algorithm>
#include <sched.h>
#include <functional>
#include <typeinfo>
#include <ios>
#include <new>
#include "json.h"
#include "fisx_elements.h"
#include "fisx_xrf.h"
#include "fisx_math.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
#include "fisx_version.h"
using namespace fisx;
typedef std::map<std::string, double> MSD;

template<class T> struct Pool
{
    std::map<std::string, std::shared_ptr<T> > m;
    T & operator()(const J &h){ typename std::map<std::string,std::shared_ptr<T> >::iterator it=m.find(h.S()); if(it==m.end()) throw HarnessError("no handle "+h.S()); return *it->second; }
    void set(const J &h, T *p){ m[h.S()] = std::shared_ptr<T>(p); }
};
inline Pool<Elements> E; inline Pool<Element> EL; inline Pool<EPDL97> EP; inline Pool<Material> M; inline Pool<Layer> L;
inline Pool<Detector> DT; inline Pool<Beam> B; inline Pool<XRF> X; inline Pool<TransmissionTable> T; inline Pool<SimpleIni> INI;
inline Pool<SimpleSpecfile> SP; inline Pool<Shell> SH; inline Pool<XRFConfig> XC;

typedef std::function<void(const J &, std::string &)> Fn;
inline std::map<std::string, Fn> & ops() { static std::map<std::string, Fn> m; return m; }
struct Reg { Reg(const char *n, Fn f){ ops()[n]=f; } };
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#define OP(name, ...) __attribute__((used)) static Reg CAT(reg_, __COUNTER__)(name, [](const J &a, std::string &o){ (void)a; (void)o; __VA_ARGS__ });
#define VAL(name, ...) OP(name, { W(o, (__VA_ARGS__)); })
#define ACT(name, ...) OP(name, { __VA_ARGS__; o += "null"; })

// layer spec: [name, density, thickness, funny] or [name, density, thickness, funny, materialHandle] or "handle"
inline Layer layerFrom(const J &j)
{
    if (j.t == J::STR) return L(j);
    Layer l(j[0].S(), j[1].D(), j[2].D(), j.size() > 3 ? j[3].D() : 1.0);
    if (j.size() > 4) l.setMaterial(M(j[4]));
    return l;
}
inline std::vector<Layer> layersFrom(const J &j)
{ std::vector<Layer> r; for (size_t i=0;i<j.a.size();i++) r.push_back(layerFrom(j.a[i])); return r; }
inline std::vector<TransmissionTable> tablesFrom(const J &j)
{ std::vector<TransmissionTable> r; for (size_t i=0;i<j.a.size();i++) r.push_back(T(j.a[i])); return r; }
inline std::vector<Material> materialsFrom(const J &j)
{ std::vector<Material> r; for (size_t i=0;i<j.a.size();i++) r.push_back(M(j.a[i])); return r; }
inline std::map<double,double> tableFrom(const J &j)
{ std::map<double,double> r; for (size_t i=0;i<j.a.size();i++) r[j.a[i][0].D()] = j.a[i][1].D(); return r; }

inline void dumpLayer(std::string &o, const Layer &l)
{
    o += "{\"name\":"; W(o, l.getName()); o += ",\"materialName\":"; W(o, l.getMaterialName());
    o += ",\"density\":"; W(o, l.getDensity()); o += ",\"thickness\":"; W(o, l.getThickness());
    o += ",\"funny\":"; W(o, l.getFunnyFactor()); o += ",\"has\":"; W(o, l.hasMaterialComposition());
    o += ",\"comp\":"; W(o, l.hasMaterialComposition() ? l.getMaterial().getComposition() : MSD()); o += "}";
}
inline void dumpLayers(std::string &o, const std::vector<Layer> &v)
{ o += '['; for (size_t i=0;i<v.size();i++){ if(i) o+=','; dumpLayer(o, v[i]); } o += ']'; }
inline void dumpTables(std::string &o, const std::vector<TransmissionTable> &v)
{ o += '['; for (size_t i=0;i<v.size();i++){ if(i) o+=','; o+='['; W(o,v[i].getName()); o+=','; W(o,v[i].getComment()); o+=','; W(o,v[i].getTransmissionTable()); o+=']'; } o += ']'; }
inline void dumpMaterial(std::string &o, Material m)
{
    o += "{\"name\":"; W(o, m.getName()); o += ",\"comment\":"; W(o, m.getComment());
    o += ",\"density\":"; W(o, m.getDefaultDensity()); o += ",\"thickness\":"; W(o, m.getDefaultThickness());
    o += ",\"comp\":"; W(o, m.getComposition()); o += "}";
}
inline void dumpDetector(std::string &o, const Detector &d)
{
    o += "{\"layer\":"; dumpLayer(o, d); o += ",\"diameter\":"; W(o, d.getDiameter()); o += ",\"distance\":"; W(o, d.getDistance());
    o += ",\"area\":"; W(o, d.getActiveArea()); o += ",\"eth\":"; W(o, (double) d.getEscapePeakEnergyThreshold());
    o += ",\"ith\":"; W(o, (double) d.getEscapePeakIntensityThreshold()); o += ",\"nth\":"; W(o, (int) d.getEscapePeakNThreshold());
    o += ",\"alpha\":"; W(o, (double) d.getEscapePeakAlphaIn()); o += "}";
}
template<class C> static void dumpConfig(std::string &o, const C &c)
{
    o += "{\"beam\":"; W(o, c.getBeam().getBeamAsDoubleVectors());
    o += ",\"filters\":"; dumpLayers(o, c.getBeamFilters()); o += ",\"ufilters\":"; dumpTables(o, c.getUserBeamFilters());
    o += ",\"sample\":"; dumpLayers(o, c.getSample()); o += ",\"attenuators\":"; dumpLayers(o, c.getAttenuators());
    o += ",\"uattenuators\":"; dumpTables(o, c.getUserAttenuators()); o += ",\"detector\":"; dumpDetector(o, c.getDetector());
    o += ",\"alphaIn\":"; W(o, c.getAlphaIn()); o += ",\"alphaOut\":"; W(o, c.getAlphaOut());
    o += ",\"scatteringAngle\":"; W(o, c.getScatteringAngle()); o += ",\"referenceLayer\":"; W(o, c.getReferenceLayer());
    o += ",\"materials\":["; std::vector<Material> v = c.getMaterials();
    for (size_t i=0;i<v.size();i++){ if(i) o+=','; dumpMaterial(o, v[i]); } o += "]}";
}

#if PART == 1
VAL("ping", std::string("pong"))
VAL("version", fisxVersion())
// ---- Math
VAL("math.E1", Math::E1(a[0].D()))
VAL("math.En", Math::En(a[0].I(), a[1].D()))
VAL("math.deBoerD", Math::deBoerD(a[0].D()))
VAL("math.deBoerL0", Math::deBoerL0(a[0].D(),a[1].D(),a[2].D(),a[3].D(),a[4].D()))
VAL("math.deBoerX", Math::deBoerX(a[0].D(),a[1].D(),a[2].D(),a[3].D(),a[4].D(),a[5].D(),a[6].D()))
VAL("math.deBoerV", Math::deBoerV(a[0].D(),a[1].D(),a[2].D(),a[3].D(),a[4].D(),a[5].D(),a[6].D()))
VAL("math.erf", Math::erf(a[0].D()))
VAL("math.erfc", Math::erfc(a[0].D()))
VAL("math.fwhm", Math::getFWHM(a[0].D(),a[1].D(),a[2].D(),a[3].D()))
VAL("math.isNumber", Math::isNumber(a[0].D()))
VAL("math.isFinite", Math::isFiniteNumber(a[0].D()))
// bulk: [[fn, args...], ...] in a single round trip
OP("math.bulk", {
    o += '[';
    for (size_t i=0;i<a[0].a.size();i++)
    {
        const J &c = a[0].a[i]; std::vector<double> v; for (size_t k=1;k<c.a.size();k++) v.push_back(c.a[k].D());
        const std::string &f = c[0].S(); double r = 0;
        if (i) o += ',';
        try {
            if (f=="E1") r=Math::E1(v.at(0)); else if (f=="En") r=Math::En((int)v.at(0),v.at(1));
            else if (f=="D") r=Math::deBoerD(v.at(0)); else if (f=="L0") r=Math::deBoerL0(v.at(0),v.at(1),v.at(2),v.at(3),v.at(4));
            else if (f=="X") r=Math::deBoerX(v.at(0),v.at(1),v.at(2),v.at(3),v.at(4),v.at(5),v.at(6));
            else if (f=="V") r=Math::deBoerV(v.at(0),v.at(1),v.at(2),v.at(3),v.at(4),v.at(5),v.at(6));
            else if (f=="erf") r=Math::erf(v.at(0)); else if (f=="erfc") r=Math::erfc(v.at(0));
            else if (f=="fwhm") r=Math::getFWHM(v.at(0),v.at(1),v.at(2),v.at(3));
            else if (f=="isn") r=Math::isNumber(v.at(0)); else if (f=="isf") r=Math::isFiniteNumber(v.at(0));
            else throw HarnessError("bad fn");
            W(o, r);
        } catch (std::exception &e) { W(o, std::string("exc:")+e.what()); }
    }
    o += ']';
})
// ---- Beam
ACT("beam.new", B.set(a[0], new Beam()))
ACT("beam.copy", B.set(a[0], new Beam(B(a[1]))))
ACT("beam.assign", B(a[0]) = B(a[1]))
ACT("tt.copy", T.set(a[0], new TransmissionTable(T(a[1]))))
ACT("tt.assign", T(a[0]) = T(a[1]))
ACT("shell.copy", SH.set(a[0], new Shell(SH(a[1]))))
ACT("shell.assign", SH(a[0]) = SH(a[1]))
ACT("beam.set", B(a[0]).setBeam(a[1].VD(), a[2].VD(), a[3].VI(), a[4].VD()))
ACT("beam.set1", B(a[0]).setBeam(a[1].VD()))
// raw-array overloads; null -> NULL pointer
OP("beam.setRaw", {
    std::vector<double> e=a[1].VD(), w, d; std::vector<int> c; std::vector<double> cd;
    if (a[2].t!=J::NUL) w=a[2].VD();
    if (a[3].t!=J::NUL) { c=a[3].VI(); cd=a[3].VD(); }
    if (a[4].t!=J::NUL) d=a[4].VD();
    const double *wp = a[2].t==J::NUL?NULL:w.data(); const double *dp = a[4].t==J::NUL?NULL:d.data();
    if (a[5].I()) { const double *cp = a[3].t==J::NUL?NULL:cd.data(); B(a[0]).setBeam((int)e.size(), e.data(), wp, cp, dp); }
    else { const int *cp = a[3].t==J::NUL?NULL:c.data(); B(a[0]).setBeam((int)e.size(), e.data(), wp, cp, dp); }
    o += "null"; })
ACT("beam.single", B(a[0]).setSingleEnergyBeam(a[1].D(), a[2].D()))
VAL("beam.get", B(a[0]).getBeamAsDoubleVectors())
OP("beam.rays", { const std::vector<Ray> &r=B(a[0]).getBeam(); o+='['; for(size_t i=0;i<r.size();i++){ if(i)o+=','; o+='['; W(o,r[i].energy); o+=','; W(o,r[i].weight); o+=','; W(o,r[i].characteristic); o+=','; W(o,r[i].divergency); o+=']'; } o+=']'; })
OP("beam.print", { std::ostringstream s; s << B(a[0]); W(o, s.str()); })
// ---- TransmissionTable
ACT("tt.new", T.set(a[0], a.size()>1 ? new TransmissionTable(a[1].S(), a[2].S()) : new TransmissionTable()))
ACT("tt.setMap", T(a[0]).setTransmissionTable(tableFrom(a[1]), a[2].S(), a[3].S()))
ACT("tt.setVec", T(a[0]).setTransmissionTable(a[1].VD(), a[2].VD(), a[3].S(), a[4].S()))
ACT("tt.name", T(a[0]).setName(a[1].S()))
ACT("tt.comment", T(a[0]).setComment(a[1].S()))
OP("tt.get", { o+='['; W(o,T(a[0]).getName()); o+=','; W(o,T(a[0]).getComment()); o+=','; W(o,T(a[0]).getTransmissionTable()); o+=']'; })
VAL("tt.at", T(a[0]).getTransmission(a[1].D()))
VAL("tt.atv", T(a[0]).getTransmission(a[1].VD()))
// ---- SimpleIni
ACT("ini.new", INI.set(a[0], a.size()>1 ? new SimpleIni(a[1].S()) : new SimpleIni()))
ACT("ini.read", INI(a[0]).readFileName(a[1].S()))
VAL("ini.sections", INI(a[0]).getSections())
OP("ini.sub", { std::vector<std::string> d; INI(a[0]).getSubsections(a[1].S(), d, a[2].I()!=0); W(o,d); })
VAL("ini.section", INI(a[0]).readSection(a[1].S(), a[2].I()!=0))
OP("ini.vd", { std::vector<double> v; SimpleIni::parseStringAsMultipleValues(a[0].S(), v, a[1].D(), a[2].S().at(0)); W(o,v); })
OP("ini.vi", { std::vector<int> v; SimpleIni::parseStringAsMultipleValues(a[0].S(), v, a[1].I(), a[2].S().at(0)); W(o,v); })
OP("ini.vs", { std::vector<std::string> v; SimpleIni::parseStringAsMultipleValues(a[0].S(), v, a[1].S(), a[2].S().at(0)); W(o,v); })
OP("ini.d", { double v=0; SimpleIni::parseStringAsSingleValue(a[0].S(), v, a[1].D()); W(o,v); })
OP("ini.i", { int v=0; SimpleIni::parseStringAsSingleValue(a[0].S(), v, a[1].I()); W(o,v); })
// ---- SimpleSpecfile
ACT("spec.new", SP.set(a[0], a.size()>1 ? new SimpleSpecfile(a[1].S()) : new SimpleSpecfile()))
ACT("spec.file", SP(a[0]).setFileName(a[1].S()))
VAL("spec.n", SP(a[0]).getNumberOfScans())
VAL("spec.labels", SP(a[0]).getScanLabels(a[1].I()))
VAL("spec.data", SP(a[0]).getScanData(a[1].I()))
// ---- Shell
ACT("shell.new", SH.set(a[0], new Shell(a[1].S())))
ACT("shell.radv", SH(a[0]).setRadiativeTransitions(a[1].VS(), a[2].VD()))
ACT("shell.radm", SH(a[0]).setRadiativeTransitions(a[1].MD()))
OP("shell.radc", { std::vector<std::string> n=a[1].VS(); std::vector<const char*> p; for(size_t i=0;i<n.size();i++) p.push_back(n[i].c_str()); std::vector<double> v=a[2].VD(); SH(a[0]).setRadiativeTransitions(p.data(), v.data(), (int) v.size()); o+="null"; })
ACT("shell.nonv", SH(a[0]).setNonradiativeTransitions(a[1].VS(), a[2].VD()))
ACT("shell.nonm", SH(a[0]).setNonradiativeTransitions(a[1].MD()))
OP("shell.nonc", { std::vector<std::string> n=a[1].VS(); std::vector<const char*> p; for(size_t i=0;i<n.size();i++) p.push_back(n[i].c_str()); std::vector<double> v=a[2].VD(); SH(a[0]).setNonradiativeTransitions(p.data(), v.data(), (int) v.size()); o+="null"; })
ACT("shell.const", SH(a[0]).setShellConstants(a[1].MD()))
VAL("shell.getConst", SH(a[0]).getShellConstants())
VAL("shell.rad", SH(a[0]).getRadiativeTransitions())
VAL("shell.non", SH(a[0]).getNonradiativeTransitions())
VAL("shell.fluo", SH(a[0]).getFluorescenceRatios())
VAL("shell.auger", SH(a[0]).getAugerRatios())
VAL("shell.ck", SH(a[0]).getCosterKronigRatios())
VAL("shell.yield", SH(a[0]).getFluorescenceYield())
VAL("shell.transfer", SH(a[0]).getDirectVacancyTransferRatios(a[1].S()))
// ---- EPDL97
ACT("epdl.new", EP.set(a[0], a.size()>1 ? new EPDL97(a[1].S()) : new EPDL97()))
ACT("epdl.dir", EP(a[0]).setDataDirectory(a[1].S()))
ACT("epdl.loadb", EP(a[0]).loadBindingEnergies(a[1].S()))
ACT("epdl.setb", EP(a[0]).setBindingEnergies(a[1].I(), a[2].MD()))
VAL("epdl.getb", EP(a[0]).getBindingEnergies(a[1].I()))
VAL("epdl.mu", EP(a[0]).getMassAttenuationCoefficients(a[1].I(), a[2].D()))
VAL("epdl.muv", EP(a[0]).getMassAttenuationCoefficients(a[1].I(), a[2].VD()))
VAL("epdl.muall", EP(a[0]).getMassAttenuationCoefficients(a[1].I()))
VAL("epdl.pw", EP(a[0]).getPhotoelectricWeights(a[1].I(), a[2].D()))
VAL("epdl.pwv", EP(a[0]).getPhotoelectricWeights(a[1].I(), a[2].VD()))
OP("epdl.self", { EPDL97 &e = EP(a[0]); if (a[2].I()) { MSD m(e.getBindingEnergies(a[1].I())); e.setBindingEnergies(a[1].I(), m); } else e.setBindingEnergies(a[1].I(), e.getBindingEnergies(a[1].I())); W(o, e.getBindingEnergies(a[1].I())); })
#endif
#if PART == 2
// ---- Element
ACT("el.new", EL.set(a[0], a.size()>1 ? new Element(a[1].S(), a[2].I()) : new Element()))
ACT("el.copy", EL.set(a[0], new Element(EL(a[1]))))
ACT("el.assign", EL(a[0]) = EL(a[1]))
ACT("el.from", EL.set(a[0], new Element(E(a[1]).getElement(a[2].S()))))
ACT("el.setName", EL(a[0]).setName(a[1].S()))
ACT("el.setZ", EL(a[0]).setAtomicNumber(a[1].I()))
ACT("el.setMass", EL(a[0]).setAtomicMass(a[1].D()))
ACT("el.setDensity", EL(a[0]).setDensity(a[1].D()))
ACT("el.setLong", EL(a[0]).setLongName(a[1].S()))
ACT("el.setCol", EL(a[0]).setColumn(a[1].I()))
ACT("el.setRow", EL(a[0]).setRow(a[1].I()))
OP("el.info", { Element &e=EL(a[0]); o+='['; W(o,e.getName()); o+=','; W(o,e.getAtomicNumber()); o+=','; W(o,e.getAtomicMass()); o+=','; W(o,e.getDensity()); o+=','; W(o,e.getLongName()); o+=','; W(o,e.getColumn()); o+=','; W(o,e.getRow()); o+=']'; })
ACT("el.bindm", EL(a[0]).setBindingEnergies(a[1].MD()))
ACT("el.bindv", EL(a[0]).setBindingEnergies(a[1].VS(), a[2].VD()))
VAL("el.bind", EL(a[0]).getBindingEnergies())
VAL("el.excited", EL(a[0]).getExcitedShells(a[1].D()))
OP("el.setMu", { if (a.size()>6 && a[6].I()) EL(a[0]).setMassAttenuationCoefficients(a[1].VD(),a[2].VD(),a[3].VD(),a[4].VD()); else EL(a[0]).setMassAttenuationCoefficients(a[1].VD(),a[2].VD(),a[3].VD(),a[4].VD(),a[5].VD()); o+="null"; })
ACT("el.setTotal", EL(a[0]).setTotalMassAttenuationCoefficient(a[1].VD(),a[2].VD()))
VAL("el.muall", EL(a[0]).getMassAttenuationCoefficients())
VAL("el.mu", EL(a[0]).getMassAttenuationCoefficients(a[1].D()))
VAL("el.muv", EL(a[0]).getMassAttenuationCoefficients(a[1].VD()))
VAL("el.edges", EL(a[0]).extractEdgeEnergiesFromMassAttenuationCoefficients())
VAL("el.edgesv", EL(a[0]).extractEdgeEnergiesFromMassAttenuationCoefficients(a[1].VD(),a[2].VD()))
ACT("el.setPartial", EL(a[0]).setPartialPhotoelectricMassAttenuationCoefficients(a[1].S(),a[2].VD(),a[3].VD()))
VAL("el.partial", EL(a[0]).getPartialPhotoelectricMassAttenuationCoefficients(a[1].D()))
ACT("el.radm", EL(a[0]).setRadiativeTransitions(a[1].S(), a[2].MD()))
ACT("el.radv", EL(a[0]).setRadiativeTransitions(a[1].S(), a[2].VS(), a[3].VD()))
VAL("el.rad", EL(a[0]).getRadiativeTransitions(a[1].S()))
ACT("el.nonm", EL(a[0]).setNonradiativeTransitions(a[1].S(), a[2].MD()))
ACT("el.nonv", EL(a[0]).setNonradiativeTransitions(a[1].S(), a[2].VS(), a[3].VD()))
VAL("el.non", EL(a[0]).getNonradiativeTransitions(a[1].S()))
ACT("el.setConst", EL(a[0]).setShellConstants(a[1].S(), a[2].MD()))
VAL("el.const", EL(a[0]).getShellConstants(a[1].S()))
VAL("el.tenergy", EL(a[0]).getTransitionEnergy(a[1].S()))
VAL("el.lines", EL(a[0]).getXRayLines(a[1].S()))
VAL("el.emitted", EL(a[0]).getEmittedXRayLines(a[1].D()))
VAL("el.vac", EL(a[0]).getInitialPhotoelectricVacancyDistribution(a[1].D()))
VAL("el.vacv", EL(a[0]).getInitialPhotoelectricVacancyDistribution(a[1].VD()))
VAL("el.cascade", EL(a[0]).getCascadeModifiedVacancyDistribution(a[1].MD()))
VAL("el.fromvac", EL(a[0]).getXRayLinesFromVacancyDistribution(a[1].MD(), a[2].I(), a[3].I()))
VAL("el.exc", EL(a[0]).getPhotoelectricExcitationFactors(a[1].D(), a[2].D()))
VAL("el.excv", EL(a[0]).getPhotoelectricExcitationFactors(a[1].VD(), a[2].VD()))
VAL("el.fluo", EL(a[0]).getFluorescenceRatios(a[1].S()))
VAL("el.auger", EL(a[0]).getAugerRatios(a[1].S()))
VAL("el.ck", EL(a[0]).getCosterKronigRatios(a[1].S()))
VAL("el.indices", EL(a[0]).getInterpolationIndices(a[1].VD(), a[2].D()))
ACT("el.ccEnable", EL(a[0]).setCascadeCacheEnabled(a[1].I()))
ACT("el.ccFill", EL(a[0]).fillCascadeCache())
ACT("el.ccEmpty", EL(a[0]).emptyCascadeCache())
VAL("el.ccFilled", EL(a[0]).isCascadeCacheFilled())
ACT("el.cFill", EL(a[0]).fillCache(a[1].VD()))
ACT("el.cUpdate", EL(a[0]).updateCache(a[1].VD()))
ACT("el.cClear", EL(a[0]).clearCache())
ACT("el.cEnable", EL(a[0]).setCacheEnabled(a[1].I()))
VAL("el.cEnabled", (int) EL(a[0]).isCacheEnabled())
VAL("el.cSize", EL(a[0]).getCacheSize())
// an object's own answers, by reference or as a copy, fed back into it
OP("el.self", {
    Element &e = EL(a[0]); const std::string w = a[1].S(); const std::string s = a[2].S(); bool copy = a[3].I() != 0;
    if (w == "bind") { if (copy) { MSD m(e.getBindingEnergies()); e.setBindingEnergies(m); } else e.setBindingEnergies(e.getBindingEnergies()); }
    else if (w == "rad") { if (copy) { MSD m(e.getRadiativeTransitions(s)); e.setRadiativeTransitions(s, m); } else e.setRadiativeTransitions(s, e.getRadiativeTransitions(s)); }
    else if (w == "non") { if (copy) { MSD m(e.getNonradiativeTransitions(s)); e.setNonradiativeTransitions(s, m); } else e.setNonradiativeTransitions(s, e.getNonradiativeTransitions(s)); }
    else if (w == "const") { if (copy) { MSD m(e.getShell(s).getShellConstants()); e.setShellConstants(s, m); } else e.setShellConstants(s, e.getShell(s).getShellConstants()); }
    else if (w == "mass") { if (copy) { double d = e.getAtomicMass(); e.setAtomicMass(d); } else e.setAtomicMass(e.getAtomicMass()); }
    else if (w == "mu") {
        if (copy) { std::map<std::string, std::vector<double> > m(e.getMassAttenuationCoefficients()); e.setMassAttenuationCoefficients(m["energy"], m["photoelectric"], m["coherent"], m["compton"], m["pair"]); }
        else { const std::map<std::string, std::vector<double> > &m = e.getMassAttenuationCoefficients(); e.setMassAttenuationCoefficients(m.at("energy"), m.at("photoelectric"), m.at("coherent"), m.at("compton"), m.at("pair")); }
    }
    else if (w == "lines") { if (copy) { MSD m(e.getXRayLines(s)); W(o, e.getXRayLines(s)); } else W(o, e.getXRayLines(s)); return; }
    else if (w == "assign") { if (copy) { Element t(e); e = t; } else { Element &f = e; e = f; } }
    else throw HarnessError("bad self");
    o += "null"; })
#endif
#if PART == 3
// ---- Elements
ACT("E.new", E.set(a[0], a.size()==2 ? new Elements(a[1].S()) : (a.size()==3 ? new Elements(a[1].S(), (short) a[2].I()) : new Elements(a[1].S(), a[2].S(), a[3].S()))))
ACT("E.copy", E.set(a[0], new Elements(E(a[1]))))
ACT("E.assign", E(a[0]) = E(a[1]))
ACT("E.del", E.m.erase(a[0].S()))
VAL("E.defined", E(a[0]).isElementNameDefined(a[1].S()))
ACT("E.addElement", E(a[0]).addElement(EL(a[1])))
VAL("E.names", E(a[0]).getElementNames())
OP("E.info", { Elements &e=E(a[0]); std::string n=a[1].S(); o+='['; W(o,n); o+=','; W(o,e.getAtomicNumber(n)); o+=','; W(o,e.getAtomicMass(n)); o+=','; W(o,e.getDensity(n)); o+=','; W(o,e.getLongName(n)); o+=','; W(o,e.getColumn(n)); o+=','; W(o,e.getRow(n)); o+=']'; })
VAL("E.emitted", E(a[0]).getEmittedXRayLines(a[1].S(), a[2].D()))
VAL("E.non", E(a[0]).getNonradiativeTransitions(a[1].S(), a[2].S()))
VAL("E.rad", E(a[0]).getRadiativeTransitions(a[1].S(), a[2].S()))
VAL("E.vac", E(a[0]).getInitialPhotoelectricVacancyDistribution(a[1].S(), a[2].D()))
VAL("E.vacv", E(a[0]).getInitialPhotoelectricVacancyDistribution(a[1].S(), a[2].VD()))
VAL("E.cascade", E(a[0]).getCascadeModifiedVacancyDistribution(a[1].S(), a[2].MD()))
VAL("E.fromvac", E(a[0]).getXRayLinesFromVacancyDistribution(a[1].S(), a[2].MD(), a[3].I(), a[4].I()))
VAL("E.const", E(a[0]).getShellConstants(a[1].S(), a[2].S()))
ACT("E.constFile", E(a[0]).setShellConstantsFile(a[1].S(), a[2].S()))
ACT("E.radFile", E(a[0]).setShellRadiativeTransitionsFile(a[1].S(), a[2].S()))
ACT("E.nonFile", E(a[0]).setShellNonradiativeTransitionsFile(a[1].S(), a[2].S()))
VAL("E.getConstFile", E(a[0]).getShellConstantsFile(a[1].S()))
VAL("E.getRadFile", E(a[0]).getShellRadiativeTransitionsFile(a[1].S()))
VAL("E.getNonFile", E(a[0]).getShellNonradiativeTransitionsFile(a[1].S()))
ACT("E.muFile", E(a[0]).setMassAttenuationCoefficientsFile(a[1].S()))
ACT("E.setMu", E(a[0]).setMassAttenuationCoefficients(a[1].S(), a[2].VD(),a[3].VD(),a[4].VD(),a[5].VD(),a[6].VD()))
VAL("E.muall", E(a[0]).getMassAttenuationCoefficients(a[1].S()))
VAL("E.muv", E(a[0]).getMassAttenuationCoefficients(a[1].S(), a[2].VD()))
VAL("E.mu", E(a[0]).getMassAttenuationCoefficients(a[1].S(), a[2].D()))
VAL("E.mumv", E(a[0]).getMassAttenuationCoefficients(a[1].MD(), a[2].VD(), a[3].I()))
VAL("E.mum", E(a[0]).getMassAttenuationCoefficients(a[1].MD(), a[2].D(), a[3].I()))
OP("E.create", { Material m = E(a[0]).createMaterial(a[1].S(), a[2].D(), a[3].D(), a[4].S()); dumpMaterial(o, m); })
ACT("E.setCompM", E(a[0]).setMaterialComposition(a[1].S(), a[2].MD()))
ACT("E.setCompV", E(a[0]).setMaterialComposition(a[1].S(), a[2].VS(), a[3].VD()))
OP("E.material", { dumpMaterial(o, E(a[0]).getMaterial(a[1].S())); })
OP("E.materialCopy", { dumpMaterial(o, E(a[0]).getMaterialCopy(a[1].S())); })
VAL("E.materials", E(a[0]).getMaterialNames())
ACT("E.addMaterial", E(a[0]).addMaterial(M(a[1]), a[2].I()))
ACT("E.addMaterialS", E(a[0]).addMaterial(a[1].S(), a[2].D(), a[3].D(), a[4].S(), a[5].I()))
ACT("E.removeMaterial", E(a[0]).removeMaterial(a[1].S()))
ACT("E.removeMaterials", E(a[0]).removeMaterials())
VAL("E.formulaComp", E(a[0]).getCompositionFromFormula(a[1].S()))
VAL("E.comp", E(a[0]).getComposition(a[1].S()))
VAL("E.compM", E(a[0]).getComposition(a[1].S(), materialsFrom(a[2])))
VAL("E.compMM", E(a[0]).getComposition(a[1].MD(), materialsFrom(a[2])))
VAL("E.parse", E(a[0]).parseFormula(a[1].S()))
VAL("E.excv", E(a[0]).getExcitationFactors(a[1].S(), a[2].VD(), a[3].VD()))
VAL("E.exc", E(a[0]).getExcitationFactors(a[1].S(), a[2].D(), a[3].D()))
VAL("E.families", E(a[0]).getPeakFamilies(a[1].S(), a[2].D()))
VAL("E.familiesV", E(a[0]).getPeakFamilies(a[1].VS(), a[2].D()))
VAL("E.bind", E(a[0]).getBindingEnergies(a[1].S()))
VAL("E.escape", E(a[0]).getEscape(a[1].MD(), a[2].D(), a[3].D(), a[4].D(), a[5].I(), a[6].D(), a[7].D()))
ACT("E.escUpdate", E(a[0]).updateEscapeCache(a[1].MD(), a[2].VD(), a[3].D(), a[4].D(), a[5].I(), a[6].D(), a[7].D()))
ACT("E.escEnable", E(a[0]).setEscapeCacheEnabled(a[1].I()))
VAL("E.escEnabled", E(a[0]).isEscapeCacheEnabled())
ACT("E.escClear", E(a[0]).clearEscapeCache())
ACT("E.ccEnable", E(a[0]).setElementCascadeCacheEnabled(a[1].S(), a[2].I()))
VAL("E.ccFilled", E(a[0]).isElementCascadeCacheFilled(a[1].S()))
ACT("E.ccFill", E(a[0]).fillElementCascadeCache(a[1].S()))
ACT("E.ccEmpty", E(a[0]).emptyElementCascadeCache(a[1].S()))
ACT("E.cFill", E(a[0]).fillCache(a[1].S(), a[2].VD()))
ACT("E.cUpdate", E(a[0]).updateCache(a[1].S(), a[2].VD()))
ACT("E.cClear", E(a[0]).clearCache(a[1].S()))
ACT("E.cEnable", E(a[0]).setCacheEnabled(a[1].S(), a[2].I()))
VAL("E.cEnabled", (int) E(a[0]).isCacheEnabled(a[1].S()))
VAL("E.cSize", E(a[0]).getCacheSize(a[1].S()))
OP("E.self", {
    Elements &e = E(a[0]); const std::string w = a[1].S(); const std::string n = a[2].S(); bool copy = a[3].I() != 0;
    if (w == "element") { if (copy) { Element t(e.getElement(n)); e.addElement(t); } else e.addElement(e.getElement(n)); }
    else if (w == "material") { if (copy) { Material t(e.getMaterial(n)); e.addMaterial(t, 0); } else e.addMaterial(e.getMaterial(n), 0); }
    else if (w == "const") { if (copy) { std::string t(e.getShellConstantsFile(n)); e.setShellConstantsFile(n, t); } else e.setShellConstantsFile(n, e.getShellConstantsFile(n)); }
    else if (w == "rad") { if (copy) { std::string t(e.getShellRadiativeTransitionsFile(n)); e.setShellRadiativeTransitionsFile(n, t); } else e.setShellRadiativeTransitionsFile(n, e.getShellRadiativeTransitionsFile(n)); }
    else if (w == "non") { if (copy) { std::string t(e.getShellNonradiativeTransitionsFile(n)); e.setShellNonradiativeTransitionsFile(n, t); } else e.setShellNonradiativeTransitionsFile(n, e.getShellNonradiativeTransitionsFile(n)); }
    else if (w == "comp") { if (copy) { MSD t(e.getMaterial(n).getComposition()); e.setMaterialComposition(n, t); } else e.setMaterialComposition(n, e.getMaterial(n).getComposition()); }
    else if (w == "remove") { if (copy) { std::string t(e.getMaterial(n).getName()); e.removeMaterial(t); } else e.removeMaterial(e.getMaterial(n).getName()); }
    else if (w == "assign") { if (copy) { Elements t(e); e = t; } else { Elements &f = e; e = f; } }
    else throw HarnessError("bad self");
    o += "null"; })
OP("E.s2d", { double v=-12345.0; bool ok=Elements::stringToDouble(a[0].S(), v); o+='['; W(o,ok); o+=','; W(o,v); o+=']'; })
VAL("E.d2s", Elements::toString(a[0].D()))
#endif
#if PART == 4
// ---- Material
ACT("mat.new", M.set(a[0], a.size()>1 ? new Material(a[1].S(), a[2].D(), a[3].D(), a[4].S()) : new Material()))
ACT("mat.copy", M.set(a[0], new Material(M(a[1]))))
ACT("mat.assign", M(a[0]) = M(a[1]))
ACT("layer.assign", L(a[0]) = L(a[1]))
ACT("det.assign", DT(a[0]) = DT(a[1]))
ACT("X.assign", X(a[0]) = X(a[1]))
ACT("mat.init", M(a[0]).initialize(a[1].S(), a[2].D(), a[3].D(), a[4].S()))
ACT("mat.setName", M(a[0]).setName(a[1].S()))
ACT("mat.compM", M(a[0]).setComposition(a[1].MD()))
ACT("mat.compV", M(a[0]).setComposition(a[1].VS(), a[2].VD()))
OP("mat.get", { dumpMaterial(o, M(a[0])); })
// ---- Layer
ACT("layer.new", L.set(a[0], new Layer(a[1].S(), a[2].D(), a[3].D(), a[4].D())))
ACT("layer.copy", L.set(a[0], new Layer(L(a[1]))))
ACT("layer.matS", L(a[0]).setMaterial(a[1].S()))
ACT("layer.matM", L(a[0]).setMaterial(M(a[1])))
ACT("layer.density", L(a[0]).setDensity(a[1].D()))
ACT("layer.thickness", L(a[0]).setThickness(a[1].D()))
OP("layer.get", { dumpLayer(o, L(a[0])); })
VAL("layer.comp", L(a[0]).getComposition(E(a[1])))
VAL("layer.trans", L(a[0]).getTransmission(a[1].D(), E(a[2]), a[3].D()))
VAL("layer.transv", L(a[0]).getTransmission(a[1].VD(), E(a[2]), a[3].D()))
VAL("layer.mu", L(a[0]).getMassAttenuationCoefficients(a[1].D(), E(a[2])))
VAL("layer.muv", L(a[0]).getMassAttenuationCoefficients(a[1].VD(), E(a[2])))
VAL("layer.families", L(a[0]).getPeakFamilies(a[1].D(), E(a[2])))
// ---- Detector
ACT("det.new", DT.set(a[0], new Detector(a[1].S(), a[2].D(), a[3].D(), a[4].D())))
ACT("det.copy", DT.set(a[0], new Detector(DT(a[1]))))
ACT("det.matS", DT(a[0]).setMaterial(a[1].S()))
ACT("det.matM", DT(a[0]).setMaterial(M(a[1])))
ACT("det.density", DT(a[0]).setDensity(a[1].D()))
ACT("det.thickness", DT(a[0]).setThickness(a[1].D()))
ACT("det.area", DT(a[0]).setActiveArea(a[1].D()))
ACT("det.diameter", DT(a[0]).setDiameter(a[1].D()))
ACT("det.distance", DT(a[0]).setDistance(a[1].D()))
ACT("det.nesc", DT(a[0]).setMaximumNumberOfEscapePeaks(a[1].I()))
ACT("det.minE", DT(a[0]).setMinimumEscapePeakEnergy(a[1].D()))
ACT("det.minI", DT(a[0]).setMinimumEscapePeakIntensity(a[1].D()))
ACT("det.escClear", DT(a[0]).clearEscapePeakCache())
OP("det.get", { dumpDetector(o, DT(a[0])); })
VAL("det.escape", DT(a[0]).getEscape(a[1].D(), E(a[2]), a[3].S(), a[4].I()))
VAL("det.trans", DT(a[0]).getTransmission(a[1].D(), E(a[2]), a[3].D()))
VAL("det.transv", DT(a[0]).getTransmission(a[1].VD(), E(a[2]), a[3].D()))
VAL("det.mu", DT(a[0]).getMassAttenuationCoefficients(a[1].D(), E(a[2])))
VAL("det.muv", DT(a[0]).getMassAttenuationCoefficients(a[1].VD(), E(a[2])))
VAL("det.families", DT(a[0]).getPeakFamilies(a[1].D(), E(a[2])))
VAL("det.comp", DT(a[0]).getComposition(E(a[1])))
// ---- XRF
ACT("X.new", X.set(a[0], a.size()>1 ? new XRF(a[1].S()) : new XRF()))
ACT("X.copy", X.set(a[0], new XRF(X(a[1]))))
ACT("X.read", X(a[0]).readConfigurationFromFile(a[1].S()))
ACT("X.beamB", X(a[0]).setBeam(B(a[1])))
ACT("X.beam", X(a[0]).setBeam(a[1].VD(), a[2].VD(), a[3].VI(), a[4].VD()))
ACT("X.single", X(a[0]).setSingleEnergyBeam(a[1].D(), a[2].D()))
ACT("X.filters", X(a[0]).setBeamFilters(layersFrom(a[1])))
ACT("X.ufilters", X(a[0]).setUserBeamFilters(tablesFrom(a[1])))
ACT("X.sample", X(a[0]).setSample(layersFrom(a[1]), a[2].I()))
ACT("X.sampleS", X(a[0]).setSample(a[1].S(), a[2].D(), a[3].D()))
ACT("X.sampleL", X(a[0]).setSample(layerFrom(a[1])))
ACT("X.attenuators", X(a[0]).setAttenuators(layersFrom(a[1])))
ACT("X.uattenuators", X(a[0]).setUserAttenuators(tablesFrom(a[1])))
ACT("X.detector", X(a[0]).setDetector(DT(a[1])))
ACT("X.geometry", X(a[0]).setGeometry(a[1].D(), a[2].D(), a[3].D()))
OP("X.config", { dumpConfig(o, X(a[0])); })
OP("X.print", { std::ostringstream s; s << X(a[0]).getConfiguration(); W(o, (int) s.str().size()); })
VAL("X.geff", X(a[0]).getGeometricEfficiency(a[1].I()))
VAL("X.ethreshold", X(a[0]).getEnergyThreshold(a[1].S(), a[2].S(), E(a[3])))
// families form: handle, Elements, [family strings], secondary, useGeo, useMass, limit, beamHandle|null
OP("X.multi", { Beam b; if (a[7].t!=J::NUL) b=B(a[7]); W(o, X(a[0]).getMultilayerFluorescence(a[2].VS(), E(a[1]), a[3].I(), a[4].I(), a[5].I(), a[6].D(), b)); })
// explicit form: handle, Elements, [elements], [layers], [families], secondary, useGeo, useMass, limit, beamHandle|null
OP("X.fluo", { Beam b; if (a[9].t!=J::NUL) b=B(a[9]); const XRF &x=X(a[0]); W(o, x.getMultilayerFluorescence(a[2].VS(), E(a[1]), a[3].VI(), a[4].VS(), a[5].I(), a[6].I(), a[7].I(), a[8].D(), b)); })
// single-element form
OP("X.one", { Beam b; if (a[9].t!=J::NUL) b=B(a[9]); W(o, X(a[0]).getMultilayerFluorescence(a[2].S(), E(a[1]), a[3].I(), a[4].S(), a[5].I(), a[6].I(), a[7].I(), a[8].D(), b)); })
OP("layer.self", {
    Layer &l = L(a[0]); const std::string w = a[1].S(); bool copy = a[2].I() != 0;
    if (w == "material") { if (copy) { Material t(l.getMaterial()); l.setMaterial(t); } else l.setMaterial(l.getMaterial()); }
    else if (w == "name") { if (copy) { std::string t(l.getMaterialName()); l.setMaterial(t); } else l.setMaterial(l.getMaterialName()); }
    else if (w == "density") { if (copy) { double t(l.getThickness()); l.setDensity(t); } else l.setDensity(l.getThickness()); }
    else if (w == "assign") { if (copy) { Layer t(l); l = t; } else { Layer &f = l; l = f; } }
    else throw HarnessError("bad self");
    dumpLayer(o, l); })
OP("det.self", {
    Detector &l = DT(a[0]); const std::string w = a[1].S(); bool copy = a[2].I() != 0;
    if (w == "material") { if (copy) { Material t(l.getMaterial()); l.setMaterial(t); } else l.setMaterial(l.getMaterial()); }
    else if (w == "name") { if (copy) { std::string t(l.getMaterialName()); l.setMaterial(t); } else l.setMaterial(l.getMaterialName()); }
    else if (w == "distance") { if (copy) { double t(l.getDistance()); l.setDiameter(t); } else l.setDiameter(l.getDistance()); }
    else if (w == "assign") { if (copy) { Detector t(l); l = t; } else { Detector &f = l; l = f; } }
    else throw HarnessError("bad self");
    dumpDetector(o, l); })
OP("X.self", {
    XRF &x = X(a[0]); const std::string w = a[1].S(); bool copy = a[2].I() != 0;
    if (w == "beam") { if (copy) { Beam t(x.getBeam()); x.setBeam(t); } else x.setBeam(x.getBeam()); }
    else if (w == "filters") { if (copy) { std::vector<Layer> t(x.getBeamFilters()); x.setBeamFilters(t); } else x.setBeamFilters(x.getBeamFilters()); }
    else if (w == "ufilters") { if (copy) { std::vector<TransmissionTable> t(x.getUserBeamFilters()); x.setUserBeamFilters(t); } else x.setUserBeamFilters(x.getUserBeamFilters()); }
    else if (w == "sample") { if (copy) { std::vector<Layer> t(x.getSample()); int r(x.getReferenceLayer()); x.setSample(t, r); } else x.setSample(x.getSample(), x.getReferenceLayer()); }
    else if (w == "attenuators") { if (copy) { std::vector<Layer> t(x.getAttenuators()); x.setAttenuators(t); } else x.setAttenuators(x.getAttenuators()); }
    else if (w == "swap") { if (copy) { std::vector<Layer> t(x.getAttenuators()); x.setBeamFilters(t); } else x.setBeamFilters(x.getAttenuators()); }
    else if (w == "uattenuators") { if (copy) { std::vector<TransmissionTable> t(x.getUserAttenuators()); x.setUserAttenuators(t); } else x.setUserAttenuators(x.getUserAttenuators()); }
    else if (w == "detector") { if (copy) { Detector t(x.getDetector()); x.setDetector(t); } else x.setDetector(x.getDetector()); }
    else if (w == "geometry") { if (copy) { double p(x.getAlphaOut()); double q(x.getAlphaIn()); double r(x.getScatteringAngle()); x.setGeometry(p, q, r); } else x.setGeometry(x.getAlphaOut(), x.getAlphaIn(), x.getScatteringAngle()); }
    else if (w == "one") { if (x.getSample().empty()) throw std::invalid_argument("empty"); if (copy) { Layer t(x.getSample().back()); x.setSample(t); } else x.setSample(x.getSample().back()); }
    else if (w == "assign") { if (copy) { XRF t(x); x = t; } else { XRF &f = x; x = f; } }
    else throw HarnessError("bad self");
    dumpConfig(o, x); })
OP("shell.self", {
    Shell &e = SH(a[0]); const std::string w = a[1].S(); bool copy = a[2].I() != 0;
    if (w == "rad") { if (copy) { MSD m(e.getRadiativeTransitions()); e.setRadiativeTransitions(m); } else e.setRadiativeTransitions(e.getRadiativeTransitions()); }
    else if (w == "non") { if (copy) { MSD m(e.getNonradiativeTransitions()); e.setNonradiativeTransitions(m); } else e.setNonradiativeTransitions(e.getNonradiativeTransitions()); }
    else if (w == "fluo") { if (copy) { MSD m(e.getFluorescenceRatios()); e.setRadiativeTransitions(m); } else e.setRadiativeTransitions(e.getFluorescenceRatios()); }
    else if (w == "const") { if (copy) { MSD m(e.getShellConstants()); e.setShellConstants(m); } else e.setShellConstants(e.getShellConstants()); }
    else if (w == "assign") { if (copy) { Shell t(e); e = t; } else { Shell &f = e; e = f; } }
    else throw HarnessError("bad self");
    o += "null"; })
VAL("X.lcomp", X(a[0]).getLayerComposition(layerFrom(a[1]), E(a[2])))
VAL("X.lmu", X(a[0]).getLayerMassAttenuationCoefficients(layerFrom(a[1]), a[2].D(), E(a[3]), a.size()>4 ? a[4].MD() : MSD()))
VAL("X.lmuv", X(a[0]).getLayerMassAttenuationCoefficients(layerFrom(a[1]), a[2].VD(), E(a[3]), a.size()>4 ? a[4].MD() : MSD()))
VAL("X.ltrans", X(a[0]).getLayerTransmission(layerFrom(a[1]), a[2].D(), E(a[3]), a[4].D(), a.size()>5 ? a[5].MD() : MSD()))
VAL("X.ltransv", X(a[0]).getLayerTransmission(layerFrom(a[1]), a[2].VD(), E(a[3]), a[4].D(), a.size()>5 ? a[5].MD() : MSD()))
VAL("X.lfamilies", X(a[0]).getLayerPeakFamilies(layerFrom(a[1]), a[2].D(), E(a[3]), a.size()>4 ? a[4].MD() : MSD()))

#endif
#if PART == 1
static std::string execute(const J &c)
{
    std::string o;
    try
    {
        J args; args.t = J::ARR;
        for (size_t i = 1; i < c.a.size(); i++) args.a.push_back(c.a[i]);
        std::map<std::string, Fn>::iterator it = ops().find(c[0].S());
        if (it == ops().end()) throw HarnessError("unknown op " + c[0].S());
        std::string v;
        it->second(args, v);
        o = "{\"ok\":" + v + "}";
    }
    catch (HarnessError &e) { o = "{\"harness\":"; W(o, e.what); o += "}"; }
    catch (std::bad_alloc &e) { o = "{\"err\":[\"bad_alloc\",\"\"]}"; }
    catch (std::invalid_argument &e) { o = "{\"err\":[\"invalid_argument\","; W(o, e.what()); o += "]}"; }
    catch (std::out_of_range &e) { o = "{\"err\":[\"out_of_range\","; W(o, e.what()); o += "]}"; }
    catch (std::domain_error &e) { o = "{\"err\":[\"domain_error\","; W(o, e.what()); o += "]}"; }
    catch (std::ios_base::failure &e) { o = "{\"err\":[\"ios_failure\","; W(o, e.what()); o += "]}"; }
    catch (std::runtime_error &e) { o = "{\"err\":[\"runtime_error\","; W(o, e.what()); o += "]}"; }
    catch (std::exception &e) { o = "{\"err\":[\"exception\","; W(o, e.what()); o += "]}"; }
    return o;
}
// the same commands with "%T" replaced
static void rename(J &j, const std::string &t)
{
    if (j.t == J::STR && j.S().size() > 1 && j.S().substr(j.S().size() - 2) == "%T") { j.s = j.S().substr(0, j.S().size() - 2) + t; }
    for (size_t i = 0; i < j.a.size(); i++) rename(j.a[i], t);
}
struct Lcg { unsigned long long s; unsigned operator()(unsigned n){ s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)((s >> 33) % n); } };
typedef std::vector<std::map<std::string, int> > Seen;
static void nap(Lcg &r, int delays)
{
    if (!delays) return;
    unsigned k = r(8);
    if (k == 0) sched_yield();
    else if (k == 1) usleep(r(300));
    else if (k == 2) for (volatile unsigned i = 0; i < r(2000); i = i + 1) {}
}
// par: threads, seed, rounds, delays, [shared queries], [private script]: everything at the same time, then one after the other
OP("par", {
    int n = a[0].I(), rounds = a[2].I(), delays = a[3].I();
    const J &shared = a[4]; const J &priv = a[5];
    size_t ns = shared.a.size(), np = priv.a.size();
    std::vector<Seen> seen(n, Seen(ns + np)); std::vector<std::string> order(n);
    std::atomic<int> waiting(n); std::vector<std::thread> th; std::atomic<long> clock(0);
    std::vector<std::vector<std::pair<long, int> > > log(n);
    for (int t = 0; t < n; t++) th.push_back(std::thread([&, t]() {
        Lcg r = { (unsigned long long) a[1].I() * 1000003ULL + t * 7919ULL + 1 };
        J mine = priv; char nm[16]; snprintf(nm, sizeof nm, "%d", t); rename(mine, nm);
        waiting--; while (waiting > 0) sched_yield();
        for (int k = 0; k < rounds; k++)
        {
            size_t p = 0; unsigned first = r((unsigned) ns + 1);
            std::vector<size_t> o(ns); for (size_t i = 0; i < ns; i++) o[i] = i;
            for (size_t i = ns; i > 1; i--) std::swap(o[i - 1], o[r((unsigned) i)]);
            // in some rounds all threads start with the same query
            if (ns && (k % 2 == 0)) { size_t w = (size_t) ((a[1].I() + k) % (int) ns); for (size_t i = 0; i < ns; i++) if (o[i] == w) std::swap(o[0], o[i]); }
            for (size_t i = 0; i < ns || p < np; )
            {
                size_t q;
                if (p < np && (i >= ns || r(2) == 0)) q = ns + p++; else q = o[i++];
                log[t].push_back(std::make_pair((long) clock.fetch_add(1, std::memory_order_relaxed), (int) q));
                std::string x = execute(q < ns ? shared.a[q] : mine.a[q - ns]);
                seen[t][q][x]++;
                nap(r, delays);
            }
            (void) first;
        }
    }));
    for (int t = 0; t < n; t++) th[t].join();
    // alone: shared queries, then the private script on the objects of a reference
    J mine = priv; rename(mine, "ref");
    std::vector<std::string> want;
    for (size_t q = 0; q < ns; q++) want.push_back(execute(shared.a[q]));
    for (int k = 0; k < rounds; k++) for (size_t q = 0; q < np; q++) { std::string x = execute(mine.a[q]); if (k == 0) want.push_back(x); }
    std::string bad; int calls = 0, nbad = 0; std::map<std::string, int> errs;
    for (int t = 0; t < n; t++) for (size_t q = 0; q < ns + np; q++) for (std::map<std::string, int>::iterator it = seen[t][q].begin(); it != seen[t][q].end(); ++it)
    {
        calls += it->second;
        if (it->first != want[q] && nbad++ < 3) { if (bad.size()) bad += ','; bad += "["; W(bad, t); bad += ','; W(bad, (int) q); bad += ','; W(bad, it->first.substr(0, 3000)); bad += ','; W(bad, want[q].substr(0, 3000)); bad += "]"; }
    }
    // the order in which calls of different threads began
    std::vector<std::pair<long, int> > all; for (int t = 0; t < n; t++) for (size_t i = 0; i < log[t].size(); i++) all.push_back(std::make_pair(log[t][i].first, t));
    std::sort(all.begin(), all.end()); unsigned long long h = 1469598103934665603ULL; int sw = 0;
    for (size_t i = 0; i < all.size(); i++) { h = (h ^ (unsigned) all[i].second) * 1099511628211ULL; if (i && all[i].second != all[i-1].second) sw++; }
    char hs[32]; snprintf(hs, sizeof hs, "%llx", h);
    int refused = 0, harness = 0; for (size_t q = 0; q < want.size(); q++) { if (want[q].compare(0, 6, "{\"err\"") == 0) refused++; if (want[q].compare(0, 6, "{\"harn") == 0) harness++; }
    o += "{\"calls\":"; W(o, calls); o += ",\"bad\":[" + bad + "],\"switches\":"; W(o, sw); o += ",\"schedule\":"; W(o, std::string(hs)); o += ",\"refused\":"; W(o, refused); o += ",\"harness\":"; W(o, harness); o += "}";
})
int main()
{
    int fd = dup(1);
    FILE *out = fdopen(fd, "w");
    dup2(2, 1); // whatever the library prints on stdout goes to stderr
    std::string line;
    std::cout.setstate(std::ios_base::failbit); // and is dropped
    while (std::getline(std::cin, line))
    {
        std::string o;
        try
        {
            JParser p(line);
            J c = p.parse();
            o = execute(c);
        }
        catch (HarnessError &e) { o = "{\"harness\":"; W(o, e.what); o += "}"; }
        fwrite(o.data(), 1, o.size(), out); fputc('\n', out); fflush(out);
    }
    fflush(out);
    _exit(0);
}
#endif
