// libFuzzer target: the readers of the library on arbitrary file contents.
// FISX_FUZZ selects the format, FISX_DATA is a data directory.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#include "fisx_elements.h"
#include "fisx_epdl97.h"
#include "fisx_xrf.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
using namespace fisx;

static std::string fmt, data, path;
static int fd = -1;
static std::string tail;
static Elements *pristine = nullptr, *current = nullptr;
static bool dirty = false;
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1"; }

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    fmt = getenv("FISX_FUZZ") ? getenv("FISX_FUZZ") : "spec";
    data = getenv("FISX_DATA") ? getenv("FISX_DATA") : "";
    if (getenv("FISX_PATH")) { path = getenv("FISX_PATH"); }
    else { fd = memfd_create("input", 0); path = "/proc/self/fd/" + std::to_string(fd); }
    if (getenv("FISX_TAIL")) { std::ifstream f(getenv("FISX_TAIL")); tail.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
    std::cout.setstate(std::ios_base::failbit);
    if (fmt == "const" || fmt == "rad" || fmt == "non" || fmt == "mu") { pristine = new Elements(data); current = pristine; }
    return 0;
}

static void put(const uint8_t *d, size_t n)
{
    if (fd >= 0)
    {
        if (ftruncate(fd, 0)) {}
        lseek(fd, 0, SEEK_SET);
        while (n) { ssize_t k = write(fd, d, n); if (k <= 0) break; d += k; n -= k; }
    }
    else { std::ofstream f(path.c_str(), std::ios::binary); f.write((const char *) d, n); f << tail; }
}

template<class F> static void quiet(F f) { try { f(); } catch (std::exception &) {} }

static const char *NAMES[] = {"H", "C", "Fe", "Mo", "Pb", "U"};

static void ask(Elements &e)
{
    for (const char *n : NAMES)
    {
        for (const char *s : {"K", "L1", "L3", "M1", "M5"})
        {
            quiet([&]{ e.getShellConstants(n, s); });
            quiet([&]{ e.getRadiativeTransitions(n, s); });
            quiet([&]{ e.getNonradiativeTransitions(n, s); });
        }
        quiet([&]{ e.getMassAttenuationCoefficients(std::string(n), 7.5); });
        quiet([&]{ e.getExcitationFactors(n, 30.0, 1.0); });
        quiet([&]{ e.getPeakFamilies(std::string(n), 50.0); });
    }
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    char sel = 0;
    if (pristine && fmt != "mu") { if (!n) return 0; sel = d[0]; d++; n--; }
    put(d, n);
    if (fmt == "spec")
        quiet([&]{
            SimpleSpecfile s(path);
            int k = s.getNumberOfScans();
            for (int i = -1; i <= (k < 40 ? k : 40); i++)
            {
                quiet([&]{ s.getScanLabels(i); });
                quiet([&]{ s.getScanData(i); });
            }
            s.setFileName(path);
            quiet([&]{ s.getScanData(k - 1); });
        });
    else if (fmt == "ini")
        quiet([&]{
            SimpleIni s(path);
            std::vector<std::string> v = s.getSections(), sub;
            for (size_t i = 0; i < v.size() && i < 40; i++)
                for (bool cs : {true, false})
                {
                    quiet([&]{ s.getSubsections(v[i], sub, cs); });
                    quiet([&]{
                        std::map<std::string, std::string> m = s.readSection(v[i], cs);
                        for (auto &kv : m)
                        {
                            std::vector<double> vd; std::vector<int> vi; std::vector<std::string> vs; double x; int y; std::string z;
                            quiet([&]{ SimpleIni::parseStringAsMultipleValues(kv.second, vd, -1.0); });
                            quiet([&]{ SimpleIni::parseStringAsMultipleValues(kv.second, vi, -1); });
                            quiet([&]{ SimpleIni::parseStringAsMultipleValues(kv.second, vs, std::string()); });
                            quiet([&]{ SimpleIni::parseStringAsSingleValue(kv.second, x, -1.0); });
                            quiet([&]{ SimpleIni::parseStringAsSingleValue(kv.second, y, -1); });
                        }
                    });
                }
        });
    else if (fmt == "xrf")
    {
        XRF x;
        quiet([&]{ x.readConfigurationFromFile(path); });
        quiet([&]{ x.getConfiguration().getBeam().getBeamAsDoubleVectors(); x.getConfiguration().getMaterials(); x.getGeometricEfficiency(0); });
        quiet([&]{ x.readConfigurationFromFile(path); });
    }
    else if (fmt == "bind")
    {
        EPDL97 e;
        quiet([&]{ e.loadBindingEnergies(path); });
        for (int z : {-1, 0, 1, 26, 92, 100, 101, 110}) quiet([&]{ e.getBindingEnergies(z); });
    }
    else if (fmt == "epdl")
        quiet([&]{
            EPDL97 e(data);    // path is data/EPDL97_CrossSections.dat
            for (int z : {0, 1, 2, 3, 4, 100})
            {
                quiet([&]{ e.getMassAttenuationCoefficients(z); });
                for (double x : {0.001, 0.01, 1.0, 8.3, 500., 2000.})
                {
                    quiet([&]{ e.getMassAttenuationCoefficients(z, x); });
                    quiet([&]{ e.getPhotoelectricWeights(z, x); });
                }
            }
        });
    else
    {
        static const char *shells[] = {"K", "L", "M"};
        std::string s = shells[((unsigned char) sel) % 3];
        bool ok = false;
        quiet([&]{
            if (fmt == "const") current->setShellConstantsFile(s, path);
            else if (fmt == "rad") current->setShellRadiativeTransitionsFile(s, path);
            else if (fmt == "non") current->setShellNonradiativeTransitionsFile(s, path);
            else current->setMassAttenuationCoefficientsFile(path);
            ok = true;
        });
        // every replacement is complete, so that the state does not have to be restored (copying is slow)
        if (ok) ask(*current);
    }
    return 0;
}
