// Damaged input: container-level damage to BSP files (mode bsp DIR), to .map/entity text (mode map) and to .wal_json (mode json).
#include "vph.hh"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <common/bspfile.hh>
#include <common/bspxfile.hh>
#include <common/cmdlib.hh>
#include <common/entdata.h>
#include <common/fs.hh>
#include <common/imglib.hh>
#include <common/mapfile.hh>
#include <common/parser.hh>
#include <common/settings.hh>
using vp::rng;
using bytes = std::vector<uint8_t>;
namespace sfs = std::filesystem;
static std::string basedir;
// Q_assert ends the process with exit(1): a refusal like any other, observed here without losing the process
extern "C" [[noreturn]] void exit(int code) noexcept(false);
extern "C" void exit(int code) noexcept(false)
{
    throw std::runtime_error(fmt::format("exit({})", code));
}
static bytes slurp(const sfs::path &p)
{
    std::ifstream f(p, std::ios::binary);
    return bytes(std::istreambuf_iterator<char>(f), {});
}
static uint32_t u32(const bytes &b, size_t at)
{
    if (at + 4 > b.size())
        return 0;
    return b[at] | b[at + 1] << 8 | b[at + 2] << 16 | (uint32_t)b[at + 3] << 24;
}
static void put(bytes &b, size_t at, uint32_t v)
{
    for (int i = 0; i < 4 && at + i < b.size(); i++)
        b[at + i] = v >> (8 * i);
}
static void case_bsp(rng &r)
{
    static std::vector<sfs::path> files;
    if (files.empty()) {
        for (auto &e : sfs::directory_iterator(basedir))
            if (e.path().extension() == ".bsp")
                files.push_back(e.path());
        std::sort(files.begin(), files.end());
    }
    auto &src = r.pick(files);
    bytes b = slurp(src);
    const size_t size0 = b.size();
    bool q2 = !memcmp(b.data(), "IBSP", 4) || !memcmp(b.data(), "QBSP", 4);
    size_t base = q2 ? 8 : 4, n = q2 ? 19 : 15;
    size_t lumpsend = 0;
    for (size_t i = 0; i < n; i++)
        lumpsend = std::max<size_t>(lumpsend, u32(b, base + 8 * i) + u32(b, base + 8 * i + 4));
    size_t bspx = (lumpsend + 3) & ~3;
    bool has_bspx = bspx + 8 <= b.size();
    std::string what;
    for (int k = r.range(1, 3); k > 0; k--) {
        auto val = [&]() -> uint32_t {
            return r.of<uint32_t>({0u, 1u, 2u, 3u, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x7ffffffeu, (uint32_t)b.size(), (uint32_t)b.size() - 1, (uint32_t)b.size() + 1, (uint32_t)r.range(0, b.size()), (uint32_t)r.next(),
                0xfffffffcu, 0x40000000u, 0x10000000u});
        };
        switch (r.range(0, 6)) {
            case 0: {
                size_t to = r.chance(.2) ? r.range(0, std::min<size_t>(b.size(), 200)) : r.range(0, b.size());
                b.resize(to);
                what += fmt::format(" cut to {} of {}", to, size0);
                break;
            }
            case 1:
            case 2: {
                size_t i = r.range(0, n - 1);
                bool len = r.chance(.5);
                uint32_t v = val();
                if (r.chance(.3))
                    v = u32(b, base + 8 * i + 4 * len) + r.range(-5, 5);
                put(b, base + 8 * i + 4 * len, v);
                what += fmt::format(" lump {} {} = {:#x}", i, len ? "length" : "offset", v);
                break;
            }
            case 3: {
                size_t at = r.range(0, 2);
                put(b, 4 * at, val());
                what += fmt::format(" word {} changed", at);
                break;
            }
            case 4: { // counts inside lumps: miptex table (Q1 lump 2), visibility (Q2 lump 3)
                size_t o = u32(b, base + 8 * (q2 ? 3 : 2));
                size_t at = o + 4 * r.range(0, 12);
                uint32_t v = val();
                if (r.chance(.3))
                    v = r.range(0, u32(b, base + 8 * (q2 ? 3 : 2) + 4) + 8);
                put(b, at, v);
                what += fmt::format(" {} word {} = {:#x}", q2 ? "visibility" : "textures", (at - o) / 4, v);
                break;
            }
            case 5:
                if (has_bspx) {
                    size_t at = bspx + 4 * r.range(0, 1 + 8 * std::min<uint32_t>(3, u32(b, bspx + 4)));
                    uint32_t v = val();
                    put(b, at, v);
                    what += fmt::format(" bspx word {} = {:#x}", (at - bspx) / 4, v);
                }
                break;
            default: {
                size_t at = r.range(0, std::max<size_t>(b.size(), 1) - 1);
                if (at < b.size())
                    b[at] ^= 1 << r.range(0, 7);
                what += fmt::format(" bit flip at {}", at);
            }
        }
        if (b.size() < 4)
            break;
    }
    std::string p = fmt::format("hostile{}.bsp", (int)getpid());
    {
        std::ofstream o(p, std::ios::binary);
        o.write((const char *)b.data(), b.size());
    }
    vp::evals++;
    std::string res;
    bool ok = false, conv = false;
    bspdata_t d;
    try {
        fs::path q(p);
        LoadBSPFile(q, &d);
        ok = true;
        conv = ConvertBSPFormat(&d, &bspver_generic);
    } catch (const std::exception &e) {
        res = e.what();
    }
    vp::stat(ok ? "damaged files accepted" : "damaged files refused");
    vp::mark(fmt::format("{} {} {}", src.filename().string().substr(0, 6), ok, ok ? what.substr(0, 12) : res.substr(0, 40)));
    if (!ok)
        return;
    // whatever was accepted must be in the file
    for (size_t i = 0; i < n; i++) {
        if (q2 && i == 16) // the unused "pop" lump
            continue;
        uint64_t o = u32(b, base + 8 * i), l = u32(b, base + 8 * i + 4);
        if (l)
            EXPECT((int32_t)o >= 0 && (int32_t)l >= 0 && o + l <= b.size(), "invented", "{}: lump {} [{},+{}] of a file of {} bytes was accepted:{}", src.filename().string(), i, o, l, b.size(), what);
    }
    EXPECT(b.size() >= base + 8 * n, "invented-header", "{}: {} bytes accepted:{}", src.filename().string(), b.size(), what);
    if (!conv || !std::holds_alternative<mbsp_t>(d.bsp))
        return;
    auto &m = std::get<mbsp_t>(d.bsp);
    auto lump = [&](size_t i) {
        size_t o = u32(b, base + 8 * i), l = u32(b, base + 8 * i + 4);
        return l ? bytes(b.begin() + o, b.begin() + o + l) : bytes();
    };
    EXPECT(m.dplanes.size() == lump(1).size() / 20, "planes", "{} planes from {} bytes:{}", m.dplanes.size(), lump(1).size(), what);
    EXPECT(m.dvertexes.size() == lump(q2 ? 2 : 3).size() / 12, "vertexes", "{} vertexes from {} bytes:{}", m.dvertexes.size(), lump(q2 ? 2 : 3).size(), what);
    EXPECT(bytes(m.dlightdata.begin(), m.dlightdata.end()) == lump(q2 ? 7 : 8), "lighting", "lighting differs:{}", what);
    EXPECT(m.dsurfedges.size() == lump(q2 ? 12 : 13).size() / 4, "surfedges", "{} surfedges:{}", m.dsurfedges.size(), what);
    for (auto &e : d.bspx.entries) {
        auto it = e.second.empty() ? b.begin() : std::search(b.begin(), b.end(), e.second.begin(), e.second.end());
        EXPECT(it != b.end() || e.second.empty(), "bspx-invented", "BSPX lump {} of {} bytes is not in the file:{}", e.first, e.second.size(), what);
    }
    // structured BSPX lumps (exactly-sized copies)
    for (auto &e : d.bspx.entries) {
        bytes x(e.second);
        x.shrink_to_fit();
        imemstream s(x.data(), x.size());
        s >> endianness<std::endian::little>;
        try {
            if (e.first == "BRUSHLIST") {
                bspxbrushes t;
                s >= t;
            }
        } catch (const std::exception &) {
        }
    }
}

static const char *MAPS[] = {
    "{\n\"classname\" \"worldspawn\"\n\"wad\" \"a\\\\b.wad\"\n// comment\n{\n( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex 0 0 0 1 1\n( 0 0 64 ) ( 1 0 64 ) ( 0 1 64 ) tex 16 -8 45 0.5 2\n( 0 0 0 ) ( 1 0 0 ) ( 0 0 1 ) tex 0 0 0 1 1\n( 0 64 0 ) ( 0 64 1 ) ( 1 64 0 ) tex 0 0 0 1 1\n( 0 0 0 ) ( 0 0 1 ) ( 0 1 0 ) tex 0 0 0 1 1\n( 64 0 0 ) ( 64 1 0 ) ( 64 0 1 ) *water 0 0 0 1 1\n}\n}\n{\n\"classname\" \"light\"\n\"origin\" \"1 2 3\"\n}\n",
    "{\n\"classname\" \"worldspawn\"\n\"mapversion\" \"220\"\n{\n( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) e1u1/tex [ 1 0 0 16 ] [ 0 -1 0 -8.5 ] 0 1 1 0 1 300\n( 0 0 64 ) ( 1 0 64 ) ( 0 1 64 ) tex [ 1 0 0 0 ] [ 0 -1 0 0 ] 0 1 1 134217728 128 0\n( 0 0 0 ) ( 1 0 0 ) ( 0 0 1 ) tex [ 1 0 0 0 ] [ 0 0 -1 0 ] 30 1 1\n}\n}\n",
    "{\n\"classname\" \"worldspawn\"\n{\n( 0 0 0 ) ( 0 128 0 ) ( 128 0 0 ) tex 0 0 0 1 1 //TX1\n( 0 0 64 ) ( 128 0 64 ) ( 0 128 64 ) tex 0 0 0 1 1 //TX2\n}\n}\n",
    "{\n\"classname\" \"worldspawn\"\n{\nbrushDef\n{\n( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) ( ( 0.03 0 0.5 ) ( 0 0.03 0 ) ) tex 0 0 0\n}\n}\n{\npatchDef2\n{\ntex\n( 3 3 0 0 0 )\n(\n( ( 0 0 0 0 0 ) )\n)\n}\n}\n}\n",
    "{\n\"classname\" \"info_player_start\"\n\"angles\" \"0 90 0\"\n\"_phong\" \"1\"\n}\n{\n\"a\\\"b\" \"c\\nd\\be\"\n}\n"};
static std::string damage_text(rng &r, std::string s, std::string &what)
{
    for (int k = r.chance(.5) ? 1 : r.range(1, 4); k > 0 && s.size(); k--) {
        size_t i = r.range(0, s.size() - 1);
        switch (r.range(0, 6)) {
            case 0: s.resize(i); what += fmt::format(" cut {}", i); break;
            case 1: {
                size_t n = std::min<size_t>(s.size() - i, r.range(1, 12));
                s.erase(i, n), what += fmt::format(" erase {}+{}", i, n);
                break;
            }
            case 2: {
                std::string v = r.of<std::string>({"{", "}", "\"", "(", ")", "[", "]", "//", "/*", "*/", "\n", "\r", "\\", "nan", "inf", "1e999", "-", "99999999999999", "brushDef", "brushDef3", "patchDef2", "\x80", "\xff", std::string(1, 0), std::string(1500, 'a'), "0", ";", "#", "'"});
                s.insert(i, v);
                what += fmt::format(" insert {} '{}'", i, v.substr(0, 8));
                break;
            }
            case 3: s[i] = (char)r.range(0, 255); what += fmt::format(" byte {} = {}", i, (int)(uint8_t)s[i]); break;
            case 4: { // a token replaced
                size_t a = s.find_first_not_of(" \n", i);
                if (a == std::string::npos)
                    break;
                size_t e = s.find_first_of(" \n", a);
                std::string v = r.of<std::string>({"0", "-1", "1e30", "1e-30", "nan", "x", "\"\"", "\"", "99999999999", "}", "{", "(", "[", "0.0000001", "4097", ""});
                s.replace(a, e == std::string::npos ? e : e - a, v);
                what += fmt::format(" token at {} -> '{}'", a, v);
                break;
            }
            case 5: s += s.substr(i); what += " repeat"; break;
            default: {
                size_t j = r.range(0, s.size() - 1);
                std::swap(s[i], s[j]);
                what += fmt::format(" swap {} {}", i, j);
            }
        }
    }
    return s;
}
struct exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    explicit exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
    parser_t parser() const { return parser_t(p.get(), n, parser_source_location("vp")); }
};
static void case_map(rng &r)
{
    std::string what, s = damage_text(r, MAPS[r.range(0, std::size(MAPS) - 1)], what), why;
    vp::evals++;
    int kind = r.range(0, 2);
    bool ok = false;
    exact x(s);
    try {
        if (kind == 0) {
            auto p = x.parser();
            auto ents = EntData_Parse(p);
            std::string t;
            for (auto &e : ents)
                for (auto &kv : e)
                    t += kv.first + kv.second;
            ok = true;
        } else {
            settings::common_settings opt;
            auto p = x.parser();
            map_file_t m;
            m.parse(p);
            ok = true;
            std::ostringstream o;
            m.write(o);
            if (kind == 2) {
                auto *g = bspversions[r.range(0, std::size(bspversions) - 1)]->game;
                if (g)
                    m.convert_to(r.of({texcoord_style_t::quaked, texcoord_style_t::valve_220, texcoord_style_t::etp}), g, opt);
                m.write(o);
            }
        }
    } catch (const std::exception &e) {
        why = e.what();
    }
    vp::stat(ok ? "damaged texts accepted" : "damaged texts refused");
    vp::mark(fmt::format("text {} {} {}", kind, ok, why.substr(0, 40)));
}
static void case_json(rng &r)
{
    static const char *J[] = {"{\"width\": 64, \"height\": 32, \"value\": 3, \"contents\": [\"SOLID\", 4], \"flags\": \"SKY\", \"animation\": \"a\", \"color\": [1, 2, 3]}",
        "{\"contents\": \"WATER\", \"flags\": [\"LIGHT\", 8], \"color\": [255, 0, 1.5]}", "[1]", "{\"width\": {}, \"flags\": {\"a\": null}, \"color\": \"red\"}", "{\"color\": [1]}", "{\"color\": [300, -1, 2, 3]}", "{\"width\": 1e300, \"contents\": -1}"};
    std::string what, s = J[r.range(0, std::size(J) - 1)];
    if (r.chance(.8))
        s = damage_text(r, s, what);
    bytes b(s.begin(), s.end());
    b.shrink_to_fit();
    auto *g = bspversions[r.range(0, std::size(bspversions) - 1)]->game;
    if (!g)
        return;
    vp::evals++;
    std::string why;
    bool ok = false;
    try {
        ok = (bool)img::load_wal_json_meta("name", fs::data(b), g);
    } catch (const std::exception &e) {
        why = e.what();
    }
    vp::mark(fmt::format("json {} {}", ok, why.substr(0, 30)));
    vp::stat(ok ? "damaged json accepted" : "damaged json refused");
}
int main(int argc, char **argv)
{
    if (argc > 5)
        basedir = argv[5];
    return vp::drive(argc, argv, {{"bsp", case_bsp}, {"map", case_map}, {"json", case_json}});
}
