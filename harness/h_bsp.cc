// Drives the real BSP reader, converter and writer over a batch: lines "IN OUT CHAIN", CHAIN = '-' or comma list of formats.
#include "vph.hh"
#include <fstream>
#include <sstream>
#include <common/bspfile.hh>
#include <common/bspxfile.hh>
#include <common/cmdlib.hh>
#include <common/fs.hh>
static const bspversion_t *find(const std::string &n)
{
    for (auto *v : bspversions)
        if (n == v->short_name)
            return v;
    return nullptr;
}
template<class T> static void recode(bspdata_t &d, const char *name, const mbsp_t *bsp)
{
    auto it = d.bspx.entries.find(name);
    if (it == d.bspx.entries.end())
        return;
    auto in = it->second;
    imemstream s(in.data(), in.size());
    s >> endianness<std::endian::little>;
    std::ostringstream o;
    o << endianness<std::endian::little>;
    if constexpr (std::is_same_v<T, bspx_decoupled_lm_perface>) {
        for (size_t i = 0; i < in.size() / 40; i++) {
            T t;
            s >= t;
            o <= t;
        }
    } else {
        T t;
        if constexpr (std::is_same_v<T, bspxfacenormals>)
            t.stream_read(s, *bsp);
        else
            s >= t;
        o <= t;
    }
    std::string r = o.str();
    it->second = std::vector<uint8_t>(r.begin(), r.end());
}
int main(int argc, char **argv)
{
    logging::mask = bitflags<logging::flag>{};
    std::ifstream f(argv[1]);
    std::string line;
    int n = 0;
    while (std::getline(f, line)) {
        std::istringstream ss(line);
        std::string in, out, chain;
        ss >> in >> out >> chain;
        printf("CASE %d %s\n", n, line.c_str());
        fflush(stdout);
        std::string res = "ok", ver;
        try {
            fs::path p(in);
            bspdata_t d;
            LoadBSPFile(p, &d);
            ver = d.version->short_name;
            std::istringstream cs(chain);
            std::string c;
            while (chain != "-" && std::getline(cs, c, ',')) {
                if (c == "recode") {
                    if (!ConvertBSPFormat(&d, &bspver_generic)) { res = "refused:generic"; break; }
                    auto &m = std::get<mbsp_t>(d.bsp);
                    recode<bspxbrushes>(d, "BRUSHLIST", &m);
                    recode<bspxfacenormals>(d, "FACENORMALS", &m);
                    recode<bspx_decoupled_lm_perface>(d, "DECOUPLED_LM", &m);
                    c = ver;
                }
                if (!ConvertBSPFormat(&d, &bspver_generic)) { res = "refused:generic"; break; }
                if (d.version != &bspver_generic) { res = "refused:notgeneric"; break; }
                if (c != "generic" && !ConvertBSPFormat(&d, find(c))) { res = "refused:" + c; break; }
            }
            if (res == "ok")
                WriteBSPFile(out, &d);
        } catch (const std::exception &e) {
            res = std::string("error:") + vp::oneline(e.what());
        }
        printf("RESULT %d %s %s\n", n++, ver.empty() ? "?" : ver.c_str(), res.c_str());
        fflush(stdout);
    }
    printf("HARNESS-DONE\n");
    return 0;
}
