// common/imglib.cc: decoding of images held in memory (mode mem), loading through the search path with metadata and the texture
// table built for a bsp (mode load), damaged images (mode hostile).  Files live in a scratch folder below the current directory.
#include "vph.hh"
#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <memory>
#include <unistd.h>
#include <common/bspfile.hh>
#include <common/bspfile_q1.hh>
#include <common/bspfile_q2.hh>
#include <common/fs.hh>
#include <common/imglib.hh>
#include <common/settings.hh>

using vp::rng;
namespace sfs = std::filesystem;
using bytes = std::vector<uint8_t>;
static sfs::path home;
struct Scratch
{
    sfs::path dir;
    Scratch()
    {
        if (home.empty())
            home = sfs::canonical(sfs::current_path());
        dir = home / fmt::format("img{}_{}", getpid(), vp::cur_case);
        sfs::create_directories(dir);
        sfs::current_path(dir);
    }
    ~Scratch()
    {
        fs::clear();
        img::clear();
        sfs::current_path(home);
        std::error_code ec;
        if (!getenv("VP_KEEP"))
            sfs::remove_all(dir, ec);
    }
};
static void spit(const sfs::path &p, const bytes &b)
{
    sfs::create_directories(p.parent_path());
    std::ofstream f(p, std::ios::binary);
    f.write((const char *)b.data(), b.size());
}
static void p32(bytes &b, uint32_t v, bool big = false)
{
    for (int i = 0; i < 4; i++)
        b.push_back(v >> (8 * (big ? 3 - i : i)));
}
static void p16(bytes &b, uint32_t v)
{
    b.push_back(v), b.push_back(v >> 8);
}
static void pname(rng &r, bytes &b, std::string n, size_t len)
{
    size_t l = n.size();
    n.resize(len);
    for (size_t i = l + 1; i < len; i++)
        n[i] = r.chance(.2) ? r.next() : 0;
    b.insert(b.end(), n.begin(), n.end());
}
using rgba = std::array<int, 4>;
struct Img // what a decoder must deliver
{
    int w = 0, h = 0;
    std::vector<rgba> px;
    img::ext ext;
    // wal only
    std::string anim;
    int32_t flags = 0, contents = 0, value = 0;
};
using pal_t = std::vector<std::array<uint8_t, 3>>;
static pal_t rnd_pal(rng &r)
{
    pal_t p(256);
    for (auto &c : p)
        for (auto &v : c)
            v = r.next();
    return p;
}
static rgba look(const pal_t &p, uint8_t i)
{
    return {p[i][0], p[i][1], p[i][2], i == 255 ? 0 : 255};
}
static void rnd_idx(rng &r, bytes &out, size_t n)
{
    int style = r.range(0, 2);
    for (size_t i = 0; i < n; i++)
        out.push_back(style == 0 ? r.next() : style == 1 ? 255 : r.chance(.2) ? 255 : r.range(0, 10));
}
static void dims(rng &r, Img &m)
{
    m.w = r.chance(.8) ? 8 * r.range(1, 5) : r.range(1, 40);
    m.h = r.chance(.8) ? 8 * r.range(1, 5) : r.range(1, 40);
}
static void junk(rng &r, bytes &b, int max)
{
    for (int k = r.range(0, max); k > 0; k--)
        b.push_back(r.next());
}
static bytes make_wal(rng &r, Img &m, const pal_t &pal)
{
    dims(r, m);
    m.ext = img::ext::WAL;
    m.flags = r.next(), m.contents = r.next(), m.value = r.next();
    if (r.chance(.5))
        m.anim = r.of<std::string>({"e1u1/anim2", "x", std::string(31, 'a')});
    bytes b;
    pname(r, b, r.of<std::string>({"inner/name", "", std::string(31, 'n')}), 32);
    p32(b, m.w), p32(b, m.h);
    bytes gap, idx;
    if (r.chance(.3))
        junk(r, gap, 20);
    rnd_idx(r, idx, m.w * m.h);
    uint32_t o = 100 + gap.size();
    p32(b, o), p32(b, o + idx.size()), p32(b, o + idx.size()), p32(b, o + idx.size());
    pname(r, b, m.anim, 32);
    p32(b, m.flags), p32(b, m.contents), p32(b, m.value);
    b.insert(b.end(), gap.begin(), gap.end());
    b.insert(b.end(), idx.begin(), idx.end());
    junk(r, b, r.chance(.5) ? 30 : 0);
    for (auto i : idx)
        m.px.push_back(look(pal, i));
    return b;
}
static bytes make_mip(rng &r, Img &m, const pal_t &pal, bool hl, const std::string &inner = "inner")
{
    dims(r, m);
    m.ext = img::ext::MIP;
    bytes b;
    pname(r, b, inner, 16);
    p32(b, m.w), p32(b, m.h);
    if (r.chance(.08)) { // name and size only
        for (int i = 0; i < 4; i++)
            p32(b, 0);
        return b;
    }
    bytes gap, idx;
    if (r.chance(.3))
        junk(r, gap, 20);
    rnd_idx(r, idx, m.w * m.h);
    uint32_t o = 40 + gap.size(), s0 = m.w * m.h, s1 = (m.w / 2) * (m.h / 2), s2 = (m.w / 4) * (m.h / 4), s3 = (m.w / 8) * (m.h / 8);
    bool nooff3 = hl && r.chance(.1);
    p32(b, o), p32(b, o + s0), p32(b, o + s0 + s1), p32(b, nooff3 ? 0 : o + s0 + s1 + s2);
    b.insert(b.end(), gap.begin(), gap.end());
    b.insert(b.end(), idx.begin(), idx.end());
    for (uint32_t i = 0; i < s1 + s2 + s3; i++)
        b.push_back(r.next());
    pal_t own = pal;
    if (hl) {
        bool bad = r.chance(.1), none = !bad && r.chance(.1);
        if (!none) {
            pal_t p = rnd_pal(r);
            p16(b, bad ? r.of({0, 255, 257, 65535}) : 256);
            for (auto &c : p)
                b.insert(b.end(), c.begin(), c.end());
            if (!bad && !nooff3)
                own = p;
            junk(r, b, 3);
        } else if (r.chance(.5)) { // cut within the palette
            p16(b, 256);
            junk(r, b, 700);
        }
    }
    for (auto i : idx)
        m.px.push_back(look(own, i));
    return b;
}
static bytes make_tga(rng &r, Img &m)
{
    dims(r, m);
    m.ext = img::ext::STB;
    int kind = r.of({2, 2, 10, 3});
    int bpp = kind == 3 ? 1 : r.of({3, 4});
    bool top = r.chance(.5);
    bytes id;
    if (r.chance(.3))
        junk(r, id, 12);
    bytes b{(uint8_t)id.size(), 0, (uint8_t)kind, 0, 0, 0, 0, 0, 0, 0, 0, 0};
    p16(b, m.w), p16(b, m.h);
    b.push_back(bpp * 8);
    b.push_back((top ? 0x20 : 0) | (bpp == 4 ? 8 : 0));
    b.insert(b.end(), id.begin(), id.end());
    std::vector<bytes> raw;
    rgba last{};
    for (int i = 0; i < m.w * m.h; i++) {
        rgba c{(int)r.range(0, 255), (int)r.range(0, 255), (int)r.range(0, 255), r.chance(.5) ? 255 : (int)r.range(0, 255)};
        if (i && r.chance(.5))
            c = last;
        if (bpp == 1)
            c[1] = c[2] = c[0];
        if (bpp != 4)
            c[3] = 255;
        last = c;
        m.px.push_back(c);
    }
    for (int y = 0; y < m.h; y++)
        for (int x = 0; x < m.w; x++) {
            auto &c = m.px[(top ? y : m.h - 1 - y) * m.w + x];
            bytes p{(uint8_t)c[2], (uint8_t)c[1], (uint8_t)c[0], (uint8_t)c[3]};
            p.resize(bpp);
            raw.push_back(p);
        }
    if (kind != 10) {
        for (auto &p : raw)
            b.insert(b.end(), p.begin(), p.end());
        return b;
    }
    for (size_t i = 0; i < raw.size();) {
        size_t run = 1;
        while (i + run < raw.size() && run < 128 && raw[i + run] == raw[i])
            run++;
        if (run > 1 || r.chance(.3)) {
            b.push_back(0x80 | (run - 1));
            b.insert(b.end(), raw[i].begin(), raw[i].end());
            i += run;
        } else {
            size_t n = std::min<size_t>(r.range(1, 128), raw.size() - i);
            b.push_back(n - 1);
            for (size_t k = 0; k < n; k++)
                b.insert(b.end(), raw[i + k].begin(), raw[i + k].end());
            i += n;
        }
    }
    return b;
}
static bytes make_png(rng &r, Img &m)
{
    dims(r, m);
    m.ext = img::ext::STB;
    int type = r.of({2, 6, 0, 4}); // rgb, rgba, grey, grey+alpha
    int ch = type == 2 ? 3 : type == 6 ? 4 : type == 0 ? 1 : 2;
    bytes rows;
    bytes prev(m.w * ch);
    for (int y = 0; y < m.h; y++) {
        bytes cur;
        for (int x = 0; x < m.w; x++) {
            rgba c{(int)r.range(0, 255), (int)r.range(0, 255), (int)r.range(0, 255), (int)r.range(0, 255)};
            if (ch < 3)
                c[1] = c[2] = c[0];
            if (ch == 1 || ch == 3)
                c[3] = 255;
            m.px.push_back(c);
            for (int k = 0; k < (ch < 3 ? 1 : 3); k++)
                cur.push_back(c[k]);
            if (ch == 2 || ch == 4)
                cur.push_back(c[3]);
        }
        int filt = r.range(0, 4);
        rows.push_back(filt);
        for (int i = 0; i < (int)cur.size(); i++) {
            int a = i >= ch ? cur[i - ch] : 0, u = prev[i], ul = i >= ch ? prev[i - ch] : 0, pred = 0;
            if (filt == 1)
                pred = a;
            else if (filt == 2)
                pred = u;
            else if (filt == 3)
                pred = (a + u) / 2;
            else if (filt == 4) {
                int p = a + u - ul, pa = abs(p - a), pb = abs(p - u), pc = abs(p - ul);
                pred = pa <= pb && pa <= pc ? a : pb <= pc ? u : ul;
            }
            rows.push_back(cur[i] - pred);
        }
        prev = cur;
    }
    bytes z{0x78, 0x01};
    for (size_t i = 0; i < rows.size();) {
        size_t n = std::min<size_t>(rows.size() - i, r.range(1, 65535));
        z.push_back(i + n == rows.size());
        p16(z, n), p16(z, ~n);
        z.insert(z.end(), rows.begin() + i, rows.begin() + i + n);
        i += n;
    }
    uint32_t a = 1, c = 0;
    for (auto v : rows)
        a = (a + v) % 65521, c = (c + a) % 65521;
    p32(z, c << 16 | a, true);
    bytes b{0x89, 'P', 'N', 'G', 13, 10, 26, 10};
    auto chunk = [&](const char *t, const bytes &d) {
        p32(b, d.size(), true);
        bytes x(t, t + 4);
        x.insert(x.end(), d.begin(), d.end());
        uint32_t crc = ~0u;
        for (auto v : x) {
            crc ^= v;
            for (int k = 0; k < 8; k++)
                crc = crc & 1 ? 0xedb88320u ^ (crc >> 1) : crc >> 1;
        }
        b.insert(b.end(), x.begin(), x.end());
        p32(b, ~crc, true);
    };
    bytes hdr;
    p32(hdr, m.w, true), p32(hdr, m.h, true);
    for (int v : {8, type, 0, 0, 0})
        hdr.push_back(v);
    chunk("IHDR", hdr);
    chunk("IDAT", z);
    chunk("IEND", {});
    return b;
}
static void set_pal(const pal_t &p)
{
    img::palette.clear();
    for (auto &c : p)
        img::palette.push_back({c[0], c[1], c[2]});
}
static const bspversion_t *ver(const char *n)
{
    for (auto *v : bspversions)
        if (!strcmp(n, v->short_name))
            return v;
    return nullptr;
}
static void same_pixels(const std::vector<qvec4b> &got, const std::vector<rgba> &want, const std::string &what)
{
    if (!EXPECT(got.size() == want.size(), "pixels", "{} pixels instead of {}: {}", got.size(), want.size(), what))
        return;
    for (size_t i = 0; i < got.size(); i++)
        for (int k = 0; k < 4; k++)
            if (got[i][k] != want[i][k]) {
                EXPECT(false, "pixel", "pixel {} channel {} is {}, expected {}: {}", i, k, (int)got[i][k], want[i][k], what);
                return;
            }
    vp::evals += got.size();
}
static std::array<double, 3> average(const std::vector<rgba> &px)
{
    std::array<double, 3> s{};
    size_t n = 0;
    for (auto &p : px)
        if (p[3] >= 127) {
            n++;
            for (int k = 0; k < 3; k++)
                s[k] += p[k];
        }
    if (n)
        for (auto &v : s)
            v /= n;
    return s;
}
static void check_average(const qvec3b &a, const std::vector<rgba> &px, const std::string &what)
{
    auto want = average(px);
    for (int k = 0; k < 3; k++)
        EXPECT(fabs(a[k] - want[k]) <= 1, "average", "average colour channel {} is {}, expected {}: {}", k, (int)a[k], want[k], what);
}
struct Made
{
    Img m;
    bytes b;
    const char *kind;
};
static Made make(rng &r, const pal_t &pal, int kind, bool hl)
{
    Made x;
    switch (kind) {
        case 0: x.b = make_wal(r, x.m, pal), x.kind = "wal"; break;
        case 1: x.b = make_mip(r, x.m, pal, hl), x.kind = "mip"; break;
        case 2: x.b = make_tga(r, x.m), x.kind = "tga"; break;
        default: x.b = make_png(r, x.m), x.kind = "png"; break;
    }
    return x;
}
static void case_mem(rng &r)
{
    pal_t pal = rnd_pal(r);
    set_pal(pal);
    bool hl = r.chance(.5);
    auto *game = ver(hl ? "hl" : r.chance(.5) ? "bsp29" : "q2bsp")->game;
    Made x = make(r, pal, r.range(0, 3), hl);
    std::string name = r.of({"tex", "e1u1/floor", "{fence"});
    bool meta = r.chance(.2);
    auto load = !strcmp(x.kind, "wal") ? img::load_wal : !strcmp(x.kind, "mip") ? img::load_mip : img::load_stb;
    auto t = load(name, fs::data(x.b), meta, game);
    std::string what = fmt::format("{} {}x{} hl{} meta{}", x.kind, x.m.w, x.m.h, hl, meta);
    if (!EXPECT((bool)t, "decode", "not decoded: {}", what))
        return;
    EXPECT(t->meta.name == name, "name", "{}: {}", t->meta.name, what);
    EXPECT((int)t->width == x.m.w && (int)t->height == x.m.h && (int)t->meta.width == x.m.w && (int)t->meta.height == x.m.h, "size", "{}x{}, meta {}x{}: {}", t->width, t->height, t->meta.width, t->meta.height, what);
    EXPECT(t->meta.extension && *t->meta.extension == x.m.ext, "extension", "{}", what);
    EXPECT(!t->meta.color_override, "colour", "{}", what);
    if (x.m.ext == img::ext::WAL)
        EXPECT(t->meta.flags.native == x.m.flags && (int32_t)t->meta.contents_native == x.m.contents && t->meta.value == x.m.value && t->meta.animation == x.m.anim, "wal-meta",
            "flags {} contents {} value {} animation {}; expected {} {} {} {}", t->meta.flags.native, (int32_t)t->meta.contents_native, t->meta.value, t->meta.animation, x.m.flags, x.m.contents, x.m.value, x.m.anim);
    if (meta)
        EXPECT(t->pixels.empty(), "meta-pixels", "{}", what);
    else {
        same_pixels(t->pixels, x.m.px, what);
        check_average(img::calculate_average(t->pixels), x.m.px, what);
    }
    vp::mark(fmt::format("mem {} hl{} meta{} odd{}", x.kind, hl, meta, x.m.w % 8 || x.m.h % 8));
    vp::stat("images decoded");
}

static const char *CONT[] = {"SOLID", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST", "128", "256", "512", "1024", "2048", "4096", "8192", "16384", "AREAPORTAL", "PLAYERCLIP", "MONSTERCLIP"};
static const char *SURF[] = {"LIGHT", "SLICK", "SKY", "WARP", "TRANS33", "TRANS66", "FLOWING", "NODRAW", "HINT"};
struct Meta
{
    bool any = false;
    std::optional<int> w, h;
    int32_t flags = 0, value = 0;
    uint32_t contents = 0;
    std::string anim;
    std::optional<std::array<int, 3>> color;
};
template<size_t N>
static std::string bitspec(rng &r, const char *(&names)[N], uint32_t &out)
{
    auto one = [&](uint32_t &v) {
        if (r.chance(.5)) {
            int i = r.range(0, N - 1);
            v = 1u << i;
            std::string s = names[i];
            for (auto &c : s)
                if (r.chance(.3))
                    c = tolower(c);
            return "\"" + s + "\"";
        }
        v = r.range(0, 0x7fffffff);
        return std::to_string(v);
    };
    if (r.chance(.4)) {
        out = 0;
        std::string s = "[";
        for (int k = r.range(1, 3); k > 0; k--) {
            uint32_t v;
            s += one(v) + (k > 1 ? ", " : "");
            out |= v;
        }
        return s + "]";
    }
    return one(out);
}
// a .wal_json with any subset of keys; values it does not give stay as in the .wal
static bytes make_json(rng &r, Meta &m)
{
    std::vector<std::string> f;
    if (r.chance(.5))
        m.w = r.range(1, 300), f.push_back(fmt::format("\"width\": {}", *m.w));
    if (r.chance(.5))
        m.h = r.range(1, 300), f.push_back(fmt::format("\"height\": {}", *m.h));
    if (r.chance(.5))
        m.value = (int32_t)r.next(), f.push_back(fmt::format("\"value\": {}", m.value));
    uint32_t v;
    if (r.chance(.5))
        f.push_back("\"contents\": " + bitspec(r, CONT, v)), m.contents = v;
    if (r.chance(.5))
        f.push_back("\"flags\": " + bitspec(r, SURF, v)), m.flags = v;
    if (r.chance(.4))
        m.anim = "e1u1/next", f.push_back("\"animation\": \"e1u1/next\"");
    if (r.chance(.4)) {
        m.color = {(int)r.range(0, 255), (int)r.range(0, 255), (int)r.range(0, 255)};
        f.push_back(fmt::format("\"color\": [{}, {}, {}]", (*m.color)[0], (*m.color)[1], (*m.color)[2]));
    }
    if (r.chance(.2))
        f.push_back("\"other\": {\"a\": [1]}");
    std::string s = "{";
    for (size_t i = 0; i < f.size(); i++)
        s += (i ? ",\n " : "\n ") + f[i];
    s += "\n}\n";
    return bytes(s.begin(), s.end());
}
static void case_load(rng &r)
{
    Scratch sc;
    pal_t pal = rnd_pal(r);
    bool q2 = r.chance(.6), hl = !q2 && r.chance(.5);
    auto *v = ver(q2 ? "q2bsp" : hl ? "hl" : "bsp29");
    settings::common_settings opt;
    bool archive_first = r.chance(.3);
    if (archive_first)
        opt.filepriority.set_value(settings::search_priority_t::ARCHIVE, settings::source::COMMANDLINE);
    sfs::path root = sc.dir / "game";
    sfs::create_directories(root);
    // the palette of the game
    if (q2 && r.chance(.6)) {
        bytes b{0x0a, 5, 1, 8};
        while (b.size() < 128)
            b.push_back(0);
        junk(r, b, 100);
        while (b.size() < 768)
            b.push_back(3);
        bytes tail;
        for (auto &c : pal)
            tail.insert(tail.end(), c.begin(), c.end());
        b.insert(b.end(), tail.begin(), tail.end());
        spit(root / "pics/colormap.pcx", b);
        fs::addArchive(root);
        img::init_palette(v->game);
        bool ok = img::palette.size() == 256;
        for (size_t i = 0; i < 256 && ok; i++)
            for (int k = 0; k < 3; k++)
                ok = ok && img::palette[i][k] == pal[i][k];
        EXPECT(ok, "palette", "palette loaded from pics/colormap.pcx differs");
    } else {
        set_pal(pal);
        fs::addArchive(root);
    }
    sfs::path pre = q2 ? root / "textures" : root;
    // textures: some files each
    struct T
    {
        std::string name;
        std::map<std::string, Made> files;
        Meta json;
        bool has_json = false, bad_json = false, embedded = false;
        Made emb;
    };
    std::vector<T> ts;
    std::vector<std::string> names{"wall1", "e1u1/floor", "sky", "a_b/c_d", "Metal2"};
    for (auto &n : names) {
        T t;
        t.name = q2 ? n : n.substr(n.rfind('/') + 1);
        for (int e = 0; e < 5; e++)
            if (r.chance(.25)) {
                const char *suf[] = {".png", ".tga", ".wal", ".mip", ""};
                int kind[] = {3, 2, 0, 1, 1};
                Made x = make(r, pal, kind[e], hl);
                spit(pre / (t.name + suf[e]), x.b);
                t.files[suf[e]] = x;
            }
        if (q2 && r.chance(.5)) {
            t.has_json = true;
            bytes b = make_json(r, t.json);
            if (r.chance(.1))
                t.bad_json = true, b.resize(b.size() / 2), b.push_back('[');
            spit(pre / (t.name + ".wal_json"), b);
        }
        ts.push_back(t);
    }
    auto best = [&](T &t) -> Made * {
        for (const char *s : {".png", ".tga", ".wal", ".mip", ""})
            if (t.files.count(s))
                return &t.files[s];
        return nullptr;
    };
    auto show = [&](T &t) {
        std::string s = t.name + " [";
        for (auto &f : t.files)
            s += f.first + "=" + fmt::format("{}x{} ", f.second.m.w, f.second.m.h);
        return s + (t.bad_json ? "badjson]" : t.has_json ? "json]" : "]");
    };
    // metadata: the json, then what the wal says; without json the wal alone
    auto want_meta = [&](T &t, Meta &m) {
        auto w = t.files.find(".wal");
        bool wal = w != t.files.end();
        m = Meta();
        if (wal) {
            Img &i = w->second.m;
            m.any = true, m.w = i.w, m.h = i.h, m.flags = i.flags, m.value = i.value, m.contents = i.contents, m.anim = i.anim;
        }
        return wal;
    };
    for (auto &t : ts) {
        auto [tex, pos, data] = img::load_texture(t.name, false, v->game, opt);
        Made *b = best(t);
        EXPECT((bool)tex == (bool)b, "load", "load_texture {}: {}", tex ? "found something" : "found nothing", show(t));
        if (tex && b) {
            EXPECT((int)tex->width == b->m.w && (int)tex->height == b->m.h, "load-size", "{}x{}, expected {}x{}: {}", tex->width, tex->height, b->m.w, b->m.h, show(t));
            same_pixels(tex->pixels, b->m.px, show(t));
            EXPECT(data && *data == b->b, "load-data", "{}", show(t));
        }
        if (!q2)
            continue;
        auto [meta, mp, md] = img::load_texture_meta(t.name, v->game, opt);
        Meta w;
        bool any = want_meta(t, w) || (t.has_json && !t.bad_json);
        EXPECT((bool)meta == any, "meta", "load_texture_meta {}: {}", meta ? "found something" : "found nothing", show(t));
        if (meta && any) {
            std::string js = md ? std::string(md->begin(), md->end()) : "";
            if (t.has_json && !t.bad_json && js[0] == '{') {
                auto key = [&](const char *k) { return js.find(std::string("\"") + k + "\"") != std::string::npos; };
                if (key("width"))
                    w.w = t.json.w;
                if (key("height"))
                    w.h = t.json.h;
                if (key("flags"))
                    w.flags = t.json.flags;
                if (key("contents"))
                    w.contents = t.json.contents;
                if (key("value"))
                    w.value = t.json.value;
                if (key("animation"))
                    w.anim = t.json.anim;
                w.color = t.json.color;
            }
            EXPECT(meta->flags.native == w.flags, "meta-flags", "flags {} expected {}: {} {}", meta->flags.native, w.flags, show(t), js.substr(0, 300));
            EXPECT(meta->contents_native == w.contents, "meta-contents", "contents {} expected {}: {} {}", meta->contents_native, w.contents, show(t), js.substr(0, 300));
            EXPECT(meta->value == w.value && meta->animation == w.anim, "meta-value", "value {} animation {} expected {} {}: {} {}", meta->value, meta->animation, w.value, w.anim, show(t), js.substr(0, 300));
            EXPECT((int)meta->width == w.w.value_or(0) && (int)meta->height == w.h.value_or(0), "meta-size", "{}x{} expected {}x{}: {} {}", meta->width, meta->height, w.w.value_or(0), w.h.value_or(0), show(t), js.substr(0, 300));
            EXPECT(meta->color_override.has_value() == w.color.has_value(), "meta-color", "{}", show(t));
            if (meta->color_override && w.color)
                for (int k = 0; k < 3; k++)
                    EXPECT((*meta->color_override)[k] == (*w.color)[k], "meta-color", "{}", show(t));
        }
        vp::mark(fmt::format("meta wal{} json{}", t.files.count(".wal"), t.has_json + t.bad_json));
    }
    // the texture table of a bsp
    mbsp_t bsp{};
    bsp.loadversion = v;
    if (q2) {
        for (auto &t : ts) {
            mtexinfo_t ti{};
            std::copy(t.name.begin(), t.name.end(), ti.texture.begin());
            bsp.texinfo.push_back(ti);
            if (r.chance(.3))
                bsp.texinfo.push_back(ti);
        }
    } else {
        for (auto &t : ts) {
            miptex_t mt;
            mt.name = t.name;
            if (r.chance(.7)) {
                t.embedded = true;
                t.emb.b = make_mip(r, t.emb.m, pal, hl, t.name);
                t.emb.kind = "embedded";
                mt.data = t.emb.b;
                mt.width = t.emb.m.w, mt.height = t.emb.m.h;
            } else
                mt.null_texture = true;
            bsp.dtex.textures.push_back(mt);
        }
    }
    img::load_textures(&bsp, opt);
    for (auto &t : ts) {
        auto *x = img::find(t.name);
        if (!EXPECT((bool)x, "table", "texture {} not in the table", show(t)))
            continue;
        Made *b = best(t);
        if (q2) {
            if (b) {
                EXPECT((int)x->width == b->m.w && (int)x->height == b->m.h, "table-size", "{}x{}: {}", x->width, x->height, show(t));
                same_pixels(x->pixels, b->m.px, "table " + show(t));
                auto [meta, mp, md] = img::load_texture_meta(t.name, v->game, opt);
                unsigned mw = meta ? meta->width : b->m.w, mh = meta ? meta->height : b->m.h;
                EXPECT(x->meta.width == mw && x->meta.height == mh, "table-meta", "{}x{} expected {}x{}: {}", x->meta.width, x->meta.height, mw, mh, show(t));
                if (mw && mh)
                    EXPECT(fabs(x->width_scale - (double)b->m.w / mw) < 1e-4 && fabs(x->height_scale - (double)b->m.h / mh) < 1e-4, "table-scale", "{} {}: {}", x->width_scale, x->height_scale, show(t));
                if (meta && meta->color_override) {
                    for (int k = 0; k < 3; k++)
                        EXPECT(x->averageColor[k] == (*meta->color_override)[k], "table-colour", "{}", show(t));
                } else
                    check_average(x->averageColor, b->m.px, "table " + show(t));
            } else
                EXPECT(x->pixels.empty(), "table-invented", "{}", show(t));
        } else {
            Made *px = b ? b : t.embedded ? &t.emb : nullptr;
            if (px) {
                same_pixels(x->pixels, px->m.px, "table " + show(t));
                EXPECT((int)x->width == px->m.w && (int)x->height == px->m.h, "table-size", "{}x{}: {}", x->width, x->height, show(t));
            } else
                EXPECT(x->pixels.empty(), "table-invented", "{}", show(t));
            if (t.embedded) {
                EXPECT((int)x->meta.width == t.emb.m.w && (int)x->meta.height == t.emb.m.h, "table-meta", "{}x{}: {}", x->meta.width, x->meta.height, show(t));
                if (px && px->m.px.size()) {
                    check_average(x->averageColor, px->m.px, "table " + show(t));
                    EXPECT(fabs(x->width_scale - (double)px->m.w / t.emb.m.w) < 1e-4 && fabs(x->height_scale - (double)px->m.h / t.emb.m.h) < 1e-4, "table-scale", "{}", show(t));
                }
            }
        }
        vp::mark(fmt::format("table q2{} hl{} file{} emb{} json{}", q2, hl, (bool)b, t.embedded, t.has_json));
    }
    vp::stat("texture tables");
}
static void case_hostile(rng &r)
{
    pal_t pal = rnd_pal(r);
    for (int i = 0; i < 256; i++)
        pal[i] = {(uint8_t)i, (uint8_t)(i ^ 0x55), 7}; // invertible
    set_pal(pal);
    bool hl = r.chance(.4);
    auto *game = ver(hl ? "hl" : "bsp29")->game;
    int kind = r.range(0, 1);
    Made x = make(r, pal, kind, hl);
    std::string what;
    for (int k = r.range(1, 3); k > 0; k--) {
        if (x.b.empty())
            break;
        if (r.chance(.35)) {
            x.b.resize(r.range(0, x.b.size() - 1));
            what += fmt::format(" cut to {}", x.b.size());
        } else {
            size_t base = kind ? 16 : 32;
            size_t at = base + 4 * r.range(0, 5);
            if (at + 4 > x.b.size())
                continue;
            uint32_t v = r.of<uint32_t>({0xffffffffu, 0x80000000u, 0x10000u, 0x7fffffffu, 0u, (uint32_t)x.b.size(), (uint32_t)x.b.size() - 1, 65535u, 0xfffffff0u, 0x40000000u, 1u});
            for (int i = 0; i < 4; i++)
                x.b[at + i] = v >> (8 * i);
            what += fmt::format(" field {} = {:x}", at, v);
        }
    }
    if (r.chance(.2) && x.b.size() > 100) // names without terminator
        for (size_t i = 0; i < (kind ? 16 : 32); i++)
            x.b[i] = 'n', x.b[(kind ? 0 : 56) + i] = 'm';
    bytes exact(x.b);
    exact.shrink_to_fit();
    auto t = (kind ? img::load_mip : img::load_wal)("name", fs::data(exact), r.chance(.2), game);
    vp::stat(t ? t->pixels.empty() ? "damaged: header only" : "damaged: pixels" : "damaged: refused");
    vp::mark(fmt::format("hostile {} {} {}", kind, (bool)t, what.substr(0, 8)));
    vp::evals++;
    if (!t || t->pixels.empty())
        return;
    EXPECT(t->pixels.size() == (size_t)t->width * t->height, "hostile-size", "{} pixels for {}x{}:{}", t->pixels.size(), t->width, t->height, what);
    uint32_t off = 0;
    for (int i = 0; i < 4; i++)
        off |= x.b[(kind ? 24 : 40) + i] << (8 * i);
    bool inside = (uint64_t)off + t->pixels.size() <= x.b.size();
    EXPECT(inside, "hostile-outside", "offset {} size {} file {}:{}", off, t->pixels.size(), x.b.size(), what);
    if (inside && !hl)
        for (size_t i = 0; i < t->pixels.size(); i++)
            if (t->pixels[i][0] != x.b[off + i]) {
                EXPECT(false, "hostile-pixels", "pixel {} is not what the file holds:{}", i, what);
                break;
            }
}
int main(int argc, char **argv)
{
    return vp::drive(argc, argv, {{"mem", case_mem}, {"load", case_load}, {"hostile", case_hostile}});
}
