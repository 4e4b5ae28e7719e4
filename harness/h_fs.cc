// common/fs.cc: search path of directories and archives against a reference model (mode model), damaged archives (mode hostile),
// and the search path a game sets up (mode game).  Every file lives in a scratch folder below the current directory.
#include "vph.hh"
#include <algorithm>
#include <array>
#include <fstream>
#include <list>
#include <random>
#include <memory>
#include <unistd.h>
#include <common/fs.hh>
#include <common/bspfile.hh>
#include <common/imglib.hh>
#include <common/settings.hh>

using vp::rng;
namespace sfs = std::filesystem;
using bytes = std::vector<uint8_t>;
static sfs::path home;

struct Scratch
{
    sfs::path dir;
    Scratch()
    {
        if (home.empty())
            home = sfs::canonical(sfs::current_path());
        dir = home / fmt::format("fs{}_{}", getpid(), vp::cur_case);
        sfs::create_directories(dir);
        sfs::current_path(dir);
    }
    ~Scratch()
    {
        fs::clear();
        sfs::current_path(home);
        std::error_code ec;
        if (!getenv("VP_KEEP"))
            sfs::remove_all(dir, ec);
    }
};
static void spit(const sfs::path &p, const bytes &b)
{
    if (p.has_parent_path())
        sfs::create_directories(p.parent_path());
    std::ofstream f(p, std::ios::binary);
    f.write((const char *)b.data(), b.size());
}
static int serial;
static bytes content(rng &r)
{
    serial++;
    bytes b(r.chance(.1) ? 0 : r.range(1, 60));
    for (auto &c : b)
        c = r.next();
    for (int i = 0; i < 4 && i < (int)b.size(); i++)
        b[i] = serial >> (8 * i);
    return b;
}
static void put32(bytes &b, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        b.push_back(v >> (8 * i));
}
static std::string lower(std::string s)
{
    for (auto &c : s)
        c = tolower(c);
    return s;
}
static std::string flipcase(rng &r, std::string s)
{
    for (auto &c : s)
        if (r.chance(.3))
            c = r.chance(.5) ? tolower(c) : toupper(c);
    return s;
}
struct Entry
{
    std::string name;
    bytes data;
    uint32_t ofs = 0;
};
struct Image
{
    bytes b;
    size_t table; // offset of the directory
    size_t rec;   // bytes per record
    std::vector<Entry> e;
};
static Image build_pak(rng &r, const std::vector<Entry> &in)
{
    Image g{{}, 0, 64, in};
    g.b = {'P', 'A', 'C', 'K', 0, 0, 0, 0, 0, 0, 0, 0};
    bool first = r.chance(.2);
    size_t pos = 12 + (first ? 64 * in.size() : 0);
    bytes body;
    for (auto &e : g.e) {
        for (int k = r.range(0, 5); k && r.chance(.5); k--)
            body.push_back(r.next());
        e.ofs = pos + body.size();
        body.insert(body.end(), e.data.begin(), e.data.end());
    }
    bytes dir;
    for (auto &e : g.e) {
        std::string n = e.name;
        n.resize(56);
        for (size_t i = e.name.size() + 1; i < 56 && r.chance(.3); i++)
            n[i] = r.next(); // junk after the terminator
        dir.insert(dir.end(), n.begin(), n.end());
        put32(dir, e.ofs);
        put32(dir, e.data.size());
    }
    if (first)
        g.table = 12, g.b.insert(g.b.end(), dir.begin(), dir.end()), g.b.insert(g.b.end(), body.begin(), body.end());
    else
        g.b.insert(g.b.end(), body.begin(), body.end()), g.table = g.b.size(), g.b.insert(g.b.end(), dir.begin(), dir.end());
    for (int i = 0; i < 4; i++)
        g.b[4 + i] = g.table >> (8 * i), g.b[8 + i] = dir.size() >> (8 * i);
    for (int k = r.range(0, 9); k && r.chance(.3); k--)
        g.b.push_back(r.next());
    return g;
}
static Image build_wad(rng &r, const std::vector<Entry> &in)
{
    Image g{{}, 0, 32, in};
    g.b = {'W', 'A', 'D', (uint8_t)r.of({'2', '3'})};
    put32(g.b, in.size());
    put32(g.b, 0);
    for (auto &e : g.e) {
        for (int k = r.range(0, 5); k && r.chance(.5); k--)
            g.b.push_back(r.next());
        e.ofs = g.b.size();
        g.b.insert(g.b.end(), e.data.begin(), e.data.end());
    }
    g.table = g.b.size();
    for (int i = 0; i < 4; i++)
        g.b[8 + i] = g.table >> (8 * i);
    for (auto &e : g.e) {
        put32(g.b, e.ofs);
        put32(g.b, e.data.size());
        put32(g.b, r.chance(.5) ? e.data.size() : r.next()); // "uncompressed" size is not used
        g.b.push_back(r.of({0x43, 0x44, 0x42}));
        g.b.push_back(0);
        g.b.push_back(r.next()), g.b.push_back(r.next());
        std::string n = e.name;
        n.resize(16);
        for (size_t i = e.name.size() + 1; i < 16 && r.chance(.3); i++)
            n[i] = r.next();
        g.b.insert(g.b.end(), n.begin(), n.end());
    }
    return g;
}
static const std::vector<std::string> NAMES{"a.txt", "maps/start.map", "maps/E1M1.bsp", "gfx/palette.lmp", "pics/colormap.pcx", "light", "textures/e1u1/wall.wal", "textures/light", "Mixed/Case.TGA", "sub/light"};
static const std::vector<std::string> LUMPS{"wall", "light", "SKY1", "*water", "+0btn", "{fence", "abcdefghijklmno", "a.txt", "sub/light"};

struct Src
{
    sfs::path path; // absolute
    bool dir = false, good = true;
    std::map<std::string, bytes> files; // dir: exact name; archive: lower case
    std::set<std::string> subdirs;
};
static bytes *lookup(Src &s, const std::string &n)
{
    auto it = s.files.find(s.dir ? n : lower(n));
    return it == s.files.end() ? nullptr : &it->second;
}
static Src make_archive(rng &r, const sfs::path &p, bool wad)
{
    Src s;
    s.path = p;
    auto names = wad ? LUMPS : NAMES;
    std::vector<Entry> es;
    for (auto &n : names)
        if (r.chance(.45)) {
            Entry e{flipcase(r, n), content(r)};
            es.push_back(e);
            s.files[lower(n)] = e.data;
        }
    std::shuffle(es.begin(), es.end(), std::minstd_rand(r.next()));
    if (!wad && r.chance(.2)) {
        Entry e{std::string(55, 'n'), content(r)};
        es.push_back(e), s.files[e.name] = e.data;
    }
    spit(p, (wad ? build_wad(r, es) : build_pak(r, es)).b);
    return s;
}
static void fill_dir(rng &r, Src &d)
{
    d.dir = true;
    sfs::create_directories(d.path);
    for (auto &n : NAMES)
        if (r.chance(.35)) {
            bytes b = content(r);
            if ((n == "light" || n == "textures/light" || n == "sub/light") && r.chance(.5)) {
                sfs::create_directories(d.path / n); // a folder of the same name is not the file
                continue;
            }
            spit(d.path / n, b);
            d.files[n] = b;
        }
}
static void case_model(rng &r)
{
    Scratch sc;
    std::vector<Src> all; // every directory and archive that exists
    Src cwd;
    cwd.path = sc.dir;
    fill_dir(r, cwd);
    int nd = r.range(1, 4);
    for (int i = 0; i < nd; i++) {
        Src d;
        d.path = sc.dir / fmt::format("dir{}", i);
        fill_dir(r, d);
        int na = r.range(0, 3);
        for (int k = 0; k < na; k++) {
            bool wad = r.chance(.4);
            std::string n = fmt::format("{}{}.{}", wad ? "tex" : "pak", k, wad ? r.of({"wad", "WAD", "Wad"}) : r.of({"pak", "PAK"}));
            all.push_back(make_archive(r, d.path / n, wad));
        }
        all.push_back(d);
    }
    if (r.chance(.5))
        all.push_back(make_archive(r, sc.dir / "local.pak", false));
    { // things that are not archives
        Src b;
        b.good = false;
        b.path = sc.dir / "bad.pak", spit(b.path, {'P', 'A', 'K', 'C', 1, 0, 0, 0, 1, 0, 0, 0}), all.push_back(b);
        b.path = sc.dir / "readme.zip", spit(b.path, {1, 2, 3}), all.push_back(b);
        b.path = sc.dir / "bad.wad", spit(b.path, {'W', 'A', 'D', '4', 0, 0, 0, 0, 0, 0, 0, 0}), all.push_back(b);
    }
    std::list<int> dirs, arcs; // registered, most recent first
    std::string hist;
    auto add = [&](int i) -> bool {
        auto &s = all[i];
        auto &l = s.dir ? dirs : arcs;
        if (std::find(l.begin(), l.end(), i) != l.end())
            return true;
        if (!s.good)
            return false;
        l.push_front(i);
        return true;
    };
    auto spell = [&](const sfs::path &p) { // another way to write the same path
        switch (r.range(0, 4)) {
            case 0: return p.lexically_relative(sc.dir);
            case 1: return sfs::path(".") / p.lexically_relative(sc.dir);
            case 2: return p.parent_path() / "." / p.filename();
            case 3: return sc.dir / "dir0" / ".." / p.lexically_relative(sc.dir);
            default: return p;
        }
    };
    int n = r.range(3, 14);
    for (int o = 0; o < n; o++) {
        int what = r.range(0, 19);
        if (what < 7) {
            int i = r.range(0, all.size() - 1);
            sfs::path p = spell(all[i].path);
            bool ext = r.chance(.5);
            bool fresh = std::find(dirs.begin(), dirs.end(), i) == dirs.end() && std::find(arcs.begin(), arcs.end(), i) == arcs.end();
            bool want = add(i);
            hist += fmt::format(" add({})", p.string());
            auto got = fs::addArchive(p, ext);
            EXPECT((bool)got == want, "add", "addArchive returned {}; after {}", (bool)got, hist);
            if (got && want) {
                EXPECT(sfs::equivalent(got->pathname, all[i].path), "add-path", "returned archive {}; after {}", got->pathname.string(), hist);
                if (fresh)
                    EXPECT(got->external == ext, "add-external", "after {}", hist);
            }
            vp::mark(fmt::format("add dir{} good{} fresh{}", all[i].dir, all[i].good, fresh));
        } else if (what == 7) {
            sfs::path p = r.of({"", "nothere", "dir0/nothere.pak", "nodir/local.pak"});
            hist += fmt::format(" add({})", p.string());
            bool want = false;
            if (p.filename() == "local.pak") // falls back to the current directory
                for (size_t i = 0; i < all.size(); i++)
                    if (all[i].path.filename() == "local.pak")
                        want = add(i);
            EXPECT((bool)fs::addArchive(p) == want, "add-missing", "after {}", hist);
        } else if (what == 8 && r.chance(.3)) {
            fs::clear();
            dirs.clear(), arcs.clear();
            hist += " clear";
        } else {
            bool loose = r.chance(.5);
            int form = r.range(0, 9);
            sfs::path p;
            bytes *want = nullptr;
            const char *how = "none";
            int owner = -2; // -1: current directory / absolute
            if (form < 6) { // plain name
                std::string nm = r.chance(.75) ? r.pick(NAMES) : r.chance(.7) ? r.pick(LUMPS) : r.of<std::string>({"nothere", "maps", "dir0", std::string(55, 'n')});
                if (r.chance(.3))
                    nm = flipcase(r, nm);
                p = nm;
                auto search = [&](bool d) {
                    if (want)
                        return;
                    for (int i : d ? dirs : arcs)
                        if ((want = lookup(all[i], nm))) {
                            owner = i;
                            how = d ? "dir" : "archive";
                            return;
                        }
                };
                auto here = [&] {
                    if (!want && (want = lookup(cwd, nm)))
                        owner = -1, how = "cwd";
                };
                if (loose)
                    here(), search(true), search(false);
                else
                    search(false), search(true), here();
            } else if (form < 8) { // absolute path, or relative through a folder
                auto &s = r.pick(all);
                std::string nm = r.pick(NAMES);
                p = (s.dir ? s.path : sc.dir) / nm;
                want = s.dir ? lookup(s, nm) : lookup(cwd, nm);
                owner = -1;
                how = "absolute";
            } else { // straight into an archive
                int i = r.range(0, all.size() - 1);
                std::string nm = r.chance(.7) ? r.pick(NAMES) : r.pick(LUMPS);
                if (all[i].dir)
                    continue;
                nm = flipcase(r, nm);
                p = (r.chance(.5) ? all[i].path : all[i].path.lexically_relative(sc.dir)) / nm;
                if (add(i))
                    want = lookup(all[i], nm), owner = i, how = "direct";
            }
            hist += fmt::format(" load({}{})", p.string(), loose ? ",loose" : "");
            if (r.chance(.5)) {
                auto w = fs::where(p, loose);
                if (want || !strcmp(how, "direct")) {
                    EXPECT((bool)w, "where-missing", "found nothing, expected {}; after {}", how, hist);
                    if (w) {
                        if (owner >= 0)
                            EXPECT(sfs::equivalent(w.archive->pathname, all[owner].path), "where-archive", "found in {}, expected {}; after {}", w.archive->pathname.string(), all[owner].path.string(), hist);
                        else
                            EXPECT(w.archive->pathname.empty(), "where-archive", "found in {}, expected the file itself; after {}", w.archive->pathname.string(), hist);
                    }
                } else
                    EXPECT(!w, "where-found", "found in {} though nothing has it; after {}", w ? w.archive->pathname.string() : "", hist);
            }
            auto got = fs::load(p, loose);
            EXPECT((bool)got == (bool)want, "load", "load returned {}, expected {} ({}); after {}", got ? "data" : "nothing", want ? "data" : "nothing", how, hist);
            if (got && want)
                EXPECT(*got == *want, "content", "{} bytes returned are not the {} bytes of the file chosen ({}); after {}", got->size(), want->size(), how, hist);
            vp::mark(fmt::format("load {} loose{} dirs{} arcs{}", how, loose, dirs.size(), arcs.size()));
        }
    }
    { // splitting and resolving archive paths
        auto &s = r.pick(all);
        std::string nm = r.pick(NAMES);
        sfs::path p = s.path / nm;
        auto c = fs::splitArchivePath(p);
        if (!s.dir) {
            EXPECT(c.archive == s.path && c.filename == nm, "split", "{} -> {} , {}", p.string(), c.archive.string(), c.filename.string());
            EXPECT(fs::resolveArchivePath(p) == s.path.parent_path() / nm, "resolve", "{} -> {}", p.string(), fs::resolveArchivePath(p).string());
        } else {
            EXPECT(!c, "split", "{} -> {} , {}", p.string(), c.archive.string(), c.filename.string());
            EXPECT(fs::resolveArchivePath(p) == p, "resolve", "{} -> {}", p.string(), fs::resolveArchivePath(p).string());
        }
    }
    vp::stat("operations", n);
}

// damaged archives: nothing but what the file holds may ever be returned
static void case_hostile(rng &r)
{
    Scratch sc;
    bool wad = r.chance(.5);
    std::vector<Entry> es;
    int n = r.range(1, 6);
    for (int i = 0; i < n; i++)
        es.push_back({fmt::format("f{}{}", i, r.chance(.5) ? ".lmp" : ""), content(r)});
    Image g = wad ? build_wad(r, es) : build_pak(r, es);
    es = g.e;
    std::string what;
    size_t ofs_at = wad ? 0 : 56, size_at = wad ? 4 : 60, name_at = wad ? 16 : 0, name_len = wad ? 16 : 56;
    auto set32 = [&](size_t at, uint32_t v) {
        for (int i = 0; i < 4; i++)
            g.b[at + i] = v >> (8 * i);
    };
    std::vector<bool> known(n, true); // record i still says what it said
    bool table_ok = true;
    int hits = r.range(1, 3);
    for (int h = 0; h < hits; h++) {
        int i = r.range(0, n - 1);
        size_t rec = g.table + g.rec * i;
        switch (r.range(0, 5)) {
            case 0: // entry reaches beyond the end of the file
                if (rec + g.rec > g.b.size())
                    break;
                set32(rec + size_at, es[i].data.size() + g.b.size() + r.of<uint32_t>({1, 7, 1000, 100000, 0x7fffff00u, 0xfffff000u}));
                known[i] = false;
                what += fmt::format(" longsize{}", i);
                break;
            case 1:
                if (rec + g.rec > g.b.size())
                    break;
                set32(rec + ofs_at, g.b.size() + r.of<uint32_t>({0, 1, 1000, 0x7fffffffu, 0xfffffff0u}));
                known[i] = false;
                what += fmt::format(" faroffset{}", i);
                break;
            case 2: // name fills the whole field
                if (rec + g.rec > g.b.size())
                    break;
                for (size_t k = 0; k < name_len; k++)
                    g.b[rec + name_at + k] = 'q' + (k % 5);
                known[i] = false;
                what += fmt::format(" fullname{}", i);
                break;
            case 3: { // cut the file short
                if (g.b.empty())
                    break;
                size_t len = r.range(0, g.b.size() - 1);
                g.b.resize(len);
                table_ok = table_ok && len >= g.table + g.rec * n;
                for (int k = 0; k < n; k++)
                    if (es[k].ofs + es[k].data.size() > len)
                        known[k] = false;
                what += fmt::format(" cut{}", len);
                break;
            }
            case 4: // number of entries
                if (g.b.size() < 12)
                    break;
                table_ok = false;
                set32(wad ? 4 : 8, r.of<uint32_t>({0xffffffffu, 0x7fffffffu, (uint32_t)(n + 1) * (wad ? 1 : 64), 100000000u}));
                what += " count";
                break;
            case 5:
                if (g.b.size() < 12)
                    break;
                table_ok = false;
                set32(wad ? 8 : 4, r.of<uint32_t>({0xffffffffu, 0u, (uint32_t)g.b.size(), (uint32_t)g.b.size() - 3, 0x80000000u}));
                what += " tableoffset";
                break;
        }
    }
    sfs::path p = sc.dir / (wad ? "x.wad" : "x.pak");
    spit(p, g.b);
    auto a = fs::addArchive(p);
    if (table_ok && g.b.size() >= 12)
        EXPECT((bool)a, "hostile-refused", "archive with an intact directory was refused:{}", what);
    vp::stat(a ? "damaged archives opened" : "damaged archives refused");
    vp::mark(fmt::format("wad{} open{} {}", wad, (bool)a, what.substr(0, 12)));
    if (!a)
        return;
    std::vector<int> order(2 * n);
    for (auto &x : order)
        x = r.range(0, n - 1);
    for (int i : order) {
        auto d = fs::load(es[i].name);
        if (table_ok && known[i]) {
            EXPECT((bool)d, "hostile-lost", "entry {} (intact) cannot be loaded:{}", i, what);
            if (d)
                EXPECT(*d == es[i].data, "hostile-content", "entry {} (intact) has other contents:{}", i, what);
        } else if (d) {
            bool inside = d->empty();
            inside = inside || std::search(g.b.begin(), g.b.end(), d->begin(), d->end()) != g.b.end();
            EXPECT(inside, "hostile-invented", "{} bytes returned for entry {} are not in the file:{}", d->size(), i, what);
        }
    }
}

// the search path set up for a game
static void case_game(rng &r)
{
    Scratch sc;
    bool q2 = r.chance(.7);
    // <root>/quake/<base>, <root>/quake/<mod>/maps/..., extra folders and archives
    sfs::path q = sc.dir / "quake", base = q / (q2 ? "baseq2" : "id1"), mod = q / "mod", other = sc.dir / "other", mapdir = mod / "maps";
    Src sb, sm, so;
    auto tree = [&](Src &s, const sfs::path &p) {
        s.path = p;
        fill_dir(r, s);
    };
    tree(sb, base), tree(sm, mod), tree(so, other);
    sfs::create_directories(mapdir);
    bool deep = r.chance(.3);
    if (deep)
        mapdir /= "dev", sfs::create_directories(mapdir);
    Src md;
    md.path = mapdir;
    fill_dir(r, md);
    for (auto &f : md.files)
        sm.files[md.path.lexically_relative(mod).generic_string() + "/" + f.first] = f.second;
    std::vector<Src> arcs; // in the order of increasing priority
    auto paks = [&](const sfs::path &d) {
        int k = r.range(0, 3);
        std::vector<int> num;
        for (int i = 0; i < k; i++)
            num.push_back(r.of({0, 1, 2, 9, 10, 11}));
        std::sort(num.begin(), num.end());
        num.erase(std::unique(num.begin(), num.end()), num.end());
        std::vector<Src> v;
        for (int x : num)
            v.push_back(make_archive(r, d / fmt::format("pak{}.pak", x), false));
        return v;
    };
    auto pb = paks(base), pm = paks(mod), po = paks(other);
    Src extra;
    bool use_other = r.chance(.5), use_extra = !use_other && r.chance(.4);
    extra = make_archive(r, sc.dir / "extra.pak", false);
    settings::common_settings opt;
    sfs::path source = mapdir / "x.bsp";
    bool moddir = true, basedir_ok = true;
    std::string how;
    std::vector<Src *> dirs, as;
    if (r.chance(.15)) {
        opt.defaultpaths.set_value(false, settings::source::COMMANDLINE);
        how += " nodefaultpaths";
        moddir = basedir_ok = false;
    } else if (r.chance(.3)) {
        opt.gamedir.set_value(mod, settings::source::COMMANDLINE);
        how += " gamedir";
        if (r.chance(.5))
            source = sc.dir / "x.bsp";
    } else if (r.chance(.3)) {
        opt.basedir.set_value(base, settings::source::COMMANDLINE);
        how += " basedir";
    }
    if (moddir && r.chance(.2) && !opt.basedir.is_changed()) { // relative base directory: beside the mod
        opt.basedir.set_value(base.filename(), settings::source::COMMANDLINE);
        how += " relbasedir";
    }
    if (use_other)
        opt.paths.add_value(other.string(), settings::source::COMMANDLINE), how += " path=dir";
    if (use_extra)
        opt.paths.add_value(extra.path.string(), settings::source::COMMANDLINE), how += " path=pak";
    const bspversion_t *v = nullptr;
    for (auto *x : bspversions)
        if (!strcmp(x->short_name, q2 ? "q2bsp" : "bsp29"))
            v = x;
    bool threw = false;
    try {
        v->game->init_filesystem(source, opt);
    } catch (const std::exception &e) {
        threw = true;
        EXPECT(false, "game-throws", "init_filesystem({}) threw {}; options{}", source.string(), e.what(), how);
    }
    if (threw)
        return;
    // low to high priority
    auto addv = [&](Src &d, std::vector<Src> &p) {
        dirs.push_back(&d);
        for (auto &a : p)
            as.push_back(&a);
    };
    if (q2) {
        if (moddir)
            addv(sb, pb), addv(sm, pm);
        if (use_other)
            addv(so, po);
        if (use_extra)
            as.push_back(&extra);
    } else {
        if (use_other)
            dirs.push_back(&so);
        if (use_extra)
            as.push_back(&extra);
        if (source.parent_path() == mapdir)
            dirs.push_back(&md);
    }
    for (int k = 0; k < 8; k++) {
        std::string nm = r.pick(NAMES);
        bool loose = r.chance(.5);
        bytes *want = nullptr;
        std::string where_;
        auto look = [&](std::vector<Src *> &l) {
            for (size_t i = l.size(); i-- && !want;)
                if ((want = lookup(*l[i], nm)))
                    where_ = l[i]->path.string();
        };
        if (loose)
            look(dirs), look(as);
        else
            look(as), look(dirs);
        auto w = fs::where(nm, loose);
        EXPECT((bool)w == (bool)want, "game-where", "{} ({}) found {} expected {}; options{}", nm, loose, w ? w.archive->pathname.string() : "nothing", where_, how);
        if (w && want) {
            auto d = fs::load(w);
            EXPECT(d && *d == *want, "game-content", "{} came from {} expected {}; options{}", nm, w.archive->pathname.string(), where_, how);
        }
    }
    vp::mark(fmt::format("game q2{}{} paks{}", q2, how, as.size()));
    vp::stat("game search paths");
}
int main(int argc, char **argv)
{
    return vp::drive(argc, argv, {{"model", case_model}, {"hostile", case_hostile}, {"game", case_game}});
}
