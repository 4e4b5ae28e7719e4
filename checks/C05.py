import json, os, random
import numpy as np
import vp, qmap, mapgen
from qmap import Ent, Side

DUMP = '''
local f = io.open("%s", "w")
local function n(x) return string.format("%%.17g", x) end
local function arr(t) local o = {} for i = 1, #t do o[i] = type(t[i]) == "table" and arr(t[i]) or n(t[i]) end return "[" .. table.concat(o, ",") .. "]" end
_ENV.arr = arr
local function q(s) return '"' .. s:gsub('[\\\\"]', '\\\\%%0') .. '"' end
local es = {}
for i, e in ipairs(entities) do
  local ks, bs = {}, {}
  for _, kv in ipairs(e.dict or {}) do ks[#ks+1] = "[" .. q(kv[1]) .. "," .. q(kv[2]) .. "]" end
  for _, b in ipairs(e.brushes or {}) do
    local ss = {}
    for _, s in ipairs(b) do
      local kind, r
      for k, v in pairs(s.raw) do kind = k; r = v end
      ss[#ss+1] = '{"p":' .. arr(s.plane_points) .. ',"tex":' .. q(s.texture) .. ',"kind":"' .. kind .. '","sh":' .. arr(r.shift) .. ',"rot":' .. n(r.rotate)
        .. ',"sc":' .. arr(r.scale) .. ',"ax":' .. (r.axis and arr(r.axis) or "null") .. ',"tx2":' .. tostring(r.tx2 or false)
        .. ',"info":' .. (s.info and arr({s.info.contents, s.info.flags, s.info.value}) or "null") .. ',"plane":' .. arr(s.plane) .. ',"vecs":' .. arr(s.vecs) .. ',"w":' .. WIND(s, b) .. '}'
    end
    bs[#bs+1] = "[" .. table.concat(ss, ",") .. "]"
  end
  es[#es+1] = '{"kv":[' .. table.concat(ks, ",") .. '],"b":[' .. table.concat(bs, ",") .. "]}"
end
f:write("[" .. table.concat(es, ",") .. "]")
f:close()
'''
# arr is recursive: declare it first; create_winding takes (face, brush, extents)
DUMP = DUMP.replace('local function arr(t)', 'local arr\nlocal function WIND(s, b) local w = create_winding(s, b, 65536) return w and arr(w) or "null" end\narr = function(t)').replace('_ENV.arr = arr\n', '')


def random_map(rng):
    ents = []
    for e in range(rng.randint(1, 5)):
        kv, used = [], set()
        for _ in range(rng.randint(0, 5)):
            k = rng.choice(['classname', 'origin', 'target', 'x y', '_k', 'angle', 'message'])
            if k in used:
                continue
            used.add(k)
            kv.append((k, rng.choice(['light', 'func_door', '0 0 %d' % rng.randint(-99, 99), '', 'a  b', "it's {odd} // text", 'worldspawn', '1.5'])))
        brushes = []
        for b in range(rng.randint(0 if e else 1, 4)):
            lo = [rng.randint(-64, 60) * 16 for _ in range(3)]
            hi = [l + rng.randint(1, 20) * 16 for l in lo]
            ss = mapgen.convex_sides(rng, lo, hi, 'rock', rng.choice([0, 0, 1, 3]))
            base = rng.choice(['q', 'v', 'e'])
            for s in ss:
                s.tex = rng.choice(['rock1', '*lava', '{fence', 'e1u1/floor3', 'sky1', '+0but'])
                s.fmt = base if base != 'e' else rng.choice(['e1', 'e2'])
                s.sh = (rng.randint(-256, 256), rng.choice([0, 12.5, -3]))
                s.rot = rng.choice([0, 0, 15, -90, 33.25])
                s.sc = (rng.choice([1, -1, .5, 2.25]), rng.choice([1, -1, .5, 2.25]))
                if base == 'v':
                    n = s.plane()[0]
                    a = np.cross(n, [.3, .5, .8])
                    a /= np.linalg.norm(a)
                    s.ax = [[float(x) for x in a], [float(x) for x in np.cross(n, a)]]
                if rng.random() < .3:
                    s.info = (rng.choice([0, 1, 32, 1 << 27]), rng.choice([0, 4, 128, 1 << 30]), rng.randint(0, 9999))
            brushes.append(ss)
        ents.append(Ent(kv, brushes))
    return ents


def one(ctx, i):
    rng = ctx.rng('maputil', i)
    d = ctx.dir('m%d' % i)
    exe = vp.exe('san', 'maputil')
    src = random_map(rng)
    lines, text = [], ''
    for e in src:
        text += '\n' * rng.randint(0, 2)
        lines.append(text.count('\n') + 1)
        text += e.text()
    f = os.path.join(d, 'in.map')
    open(f, 'w').write(text)
    want = [e.key() for e in src]

    def call(*ops):
        r = vp.run([exe, f] + list(ops), cwd=d)
        if r.timed_out:
            raise vp.Broken('maputil timed out')
        if r.crashed or r.rc:
            ctx.crash(r, 'maputil', [f])
            return None
        return r

    def saved(name):
        return [e.key() for e in qmap.parse(open(os.path.join(d, name), 'rb').read())]

    def same(got, exp, key, what):
        ctx.ok(key='%s:%d' % (key, len(src)))
        if got != exp:
            diff = next(((a, b) for a, b in zip(got, exp) if a != b), (len(got), len(exp)))
            ctx.violation(key, '%s: %s' % (what, str(diff)[:1200]), [d])

    # saved unchanged; stripped; last option is given twice since maputil ignores an option without argument at the end
    if call('--save', 'a.map'):
        same(saved('a.map'), want, 'maputil-save', 'saved map differs from the map loaded')
    if call('--strip_extended_info', '--save', 'b.map'):
        w = json.loads(json.dumps(want))
        for e in w:
            for b in e[1]:
                for s in b:
                    s[7] = None
        same(saved('b.map'), w, 'maputil-strip', 'stripping the extended info changed something else')
    # what a script sees
    lua = os.path.join(d, 'dump.lua')
    open(lua, 'w').write(DUMP % os.path.join(d, 'dump.json'))
    r = call('--script', lua)
    if r:
        try:
            got = json.load(open(os.path.join(d, 'dump.json')))
        except Exception as x:
            ctx.violation('script-dump', 'no dump: %s %s' % (x, r.out[-800:]), [d])
            got = None
        if got is not None:
            conv = []
            for e in got:
                bs = []
                for b in e['b']:
                    bs.append([[[float(x) for p in s['p'] for x in p], s['tex'], {'quaked': 'q', 'valve': 'v', 'etp': 'e2' if s['tx2'] else 'e1'}[s['kind']],
                                s['sh'], s['rot'], s['sc'], None if s['ax'] is None else [x for a in s['ax'] for x in a], s['info']] for s in b])
                conv.append([[list(x) for x in e['kv']], bs])
            same(conv, want, 'script-view', 'the script sees a different map')
            for e, se in zip(got, src):
                for b, sb in zip(e['b'], se.brushes):
                    pl = [s.plane() for s in sb]
                    polys = qmap.brush_polys(pl)
                    for s, (n, dd), poly in zip(b, pl, polys):
                        ctx.ok(2)
                        if max(abs(np.array(s['plane'][:3]) - n)) > 1e-9 or abs(s['plane'][3] - dd) > 1e-6:
                            ctx.violation('script-plane', '%s vs %s' % (s['plane'], (n, dd)), [d])
                        w = [] if s['w'] is None else [np.array(p) for p in s['w']]
                        a0, a1 = qmap.poly_area(w), qmap.poly_area(poly)
                        if abs(a0 - a1) > 1e-3 * (1 + a1) or (poly and max(min(np.linalg.norm(p - q) for q in w) if w else 9e9 for p in poly) > .05):
                            ctx.violation('create-winding', 'winding area %s, the brush face has %s: %s' % (a0, a1, w), [d])
                        else:
                            ctx.stat('script_windings')
    # committed unchanged and with edits
    open(os.path.join(d, 'commit.lua'), 'w').write('commit_map()\n')
    if call('--script', os.path.join(d, 'commit.lua'), '--save', 'c.map'):
        same(saved('c.map'), want, 'commit-identity', 'commit_map() of an unedited map changed it')
    k = rng.randrange(len(src))
    edit = 'local e = entities[%d]\ne.dict = e.dict or {}\ntable.insert(e.dict, {"added", "by script"})\nlocal b = entities[1].brushes[1]\nb[1].texture = "changed"\nb[2].info = {contents=7, flags=9, value=11}\nb[3].info = nil\nb[4].plane_points[1][1] = b[4].plane_points[1][1]\ntable.insert(entities, {dict={{"classname","new"}}})\ncommit_map()\n' % (k + 1)
    open(os.path.join(d, 'edit.lua'), 'w').write(edit)
    if call('--script', os.path.join(d, 'edit.lua'), '--save', 'd.map'):
        w = json.loads(json.dumps(want))
        w[k][0].append(['added', 'by script'])
        w[0][1][0][0][1] = 'changed'
        w[0][1][0][1][7] = [7, 9, 11]
        w[0][1][0][2][7] = None
        w.append([[['classname', 'new']], []])
        same(saved('d.map'), w, 'commit-edit', 'a scripted edit was not saved exactly')
    # queries
    for q, fn in (('return entity.classname == "light"', lambda e: e.get('classname') == 'light'), ('return entity.origin ~= nil', lambda e: any(x[0] == 'origin' for x in e.kv)),
                  ('return #(entity.target or "") > 2', lambda e: len(e.get('target')) > 2)):
        r = call('--query', q)
        if r:
            got = [x for x in r.out.split('\n') if x.startswith('MATCHED: ')]
            exp = [(e, l) for e, l in zip(src, lines) if fn(e)]
            ctx.ok(key='query:%d' % len(exp))
            bad = len(got) != len(exp)
            for g, (e, l) in zip(got, exp):
                bad = bad or g.split(' @ ')[0] != 'MATCHED: ' + e.get('classname')
            if bad:
                ctx.violation('query', '%s matched %s, expected %s' % (q, got, [(e.get('classname'), l) for e, l in exp]), [d])
    # conversion from the command line keeps everything but the alignment format
    tgt = rng.choice(['quake', 'valve'])
    if call('--convert', tgt, '--save', 'e.map'):
        got = saved('e.map')
        strip = lambda m: [[e[0], [[[s[0], s[1], s[7]] for s in b] for b in e[1]]] for e in m]
        same(strip(got), strip(want), 'maputil-convert', 'converting to %s changed geometry, textures, entities or surface info' % tgt)
        kinds = {s[2] for e in got for b in e[1] for s in b}
        if kinds - {'q' if tgt == 'quake' else 'v'}:
            ctx.violation('maputil-convert-format', 'sides of format %s after converting to %s' % (kinds, tgt), [d])
        ctx.stat('cli_conversions')


def check(ctx):
    vp.build('san', ['h_text', 'maputil'])
    ctx.rule = 'distinct = mixes of side formats parsed/converted in-process, and operation x map size classes run through maputil'
    ctx.shards(vp.exe('san', 'h_text'), 'map', ctx.n(1600, 60000))
    ctx.fork(lambda i: one(ctx, i), range(ctx.n(48, 1500)))
