From 0bd001133b97eb5f56cc10fb7f0808459de7c02f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 18:54:38 +0000
Subject: [PATCH 01/39] fix: make the Embree 4 branch of the ray streams
 compile

The batched ray streams moved to std::vector but the HAVE_EMBREE4 loops still
used the removed _numrays counter and passed the wrapper struct instead of the
embedded Embree ray.
---
 include/light/trace_embree.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/light/trace_embree.hh b/include/light/trace_embree.hh
index f866be4..d44d4d9 100644
--- a/include/light/trace_embree.hh
+++ b/include/light/trace_embree.hh
@@ -264,8 +264,8 @@ public:
 
 #ifdef HAVE_EMBREE4
         RTCIntersectArguments embree4_args = ctx2.setup_intersection_arguments();
-        for (int i = 0; i < _numrays; ++i)
-            rtcIntersect1(scene, &_rays[i], &embree4_args);
+        for (auto &ray : _rays)
+            rtcIntersect1(scene, &ray.ray, &embree4_args);
 #else
         rtcIntersect1M(scene, &ctx2, &_rays.data()->ray, _rays.size(), sizeof(_rays[0]));
 #endif
@@ -346,8 +346,8 @@ public:
         ray_source_info ctx2(this, self, shadowmask);
 #ifdef HAVE_EMBREE4
         RTCOccludedArguments embree4_args = ctx2.setup_occluded_arguments();
-        for (int i = 0; i < _numrays; ++i)
-            rtcOccluded1(scene, &_rays[i], &embree4_args);
+        for (auto &ray : _rays)
+            rtcOccluded1(scene, &ray.ray, &embree4_args);
 #else
         rtcOccluded1M(scene, &ctx2, &_rays.data()->ray, _rays.size(), sizeof(_rays[0]));
 #endif
-- 
2.43.0


From 70b0b38163b9aa31d922d609df8213fc26e08098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:08 +0000
Subject: [PATCH 02/39] fix: do not call a virtual member before the base is
 constructed in setting_vec3

The call ran on an object without a vtable (undefined behaviour); it could only
ever have meant the identity transform of setting_vec3 itself.
---
 common/settings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index c08fe4d..b70f334 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -391,7 +391,7 @@ qvec3f setting_vec3::transform_vec3_value(const qvec3f &val) const
 
 setting_vec3::setting_vec3(setting_container *dictionary, const nameset &names, float a, float b, float c,
     const setting_group *group, const char *description)
-    : setting_value(dictionary, names, transform_vec3_value({a, b, c}), group, description)
+    : setting_value(dictionary, names, qvec3f{a, b, c}, group, description)
 {
 }
 
-- 
2.43.0


From 624a79b9e52cf9dee5628be937534f5587f52a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 03/39] fix: hybrid winding storage appended after stale points
 left by clear()

---
 include/common/polylib.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common/polylib.hh b/include/common/polylib.hh
index ef21023..b8a1ec1 100644
--- a/include/common/polylib.hh
+++ b/include/common/polylib.hh
@@ -554,6 +554,8 @@ public:
         count++;
 
         if (count > N) {
+            // drop anything left over from before a clear(), shrink or assignment
+            vector.resize(count - 1 - N);
             return vector.emplace_back(vec);
         }
 
-- 
2.43.0


From 682af6a7e66dc3142d49f6edc17af084f138aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 04/39] fix: qvec operator/= by a vector multiplied instead of
 dividing

---
 include/common/qvec.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/qvec.hh b/include/common/qvec.hh
index c4f72fc..d450c57 100644
--- a/include/common/qvec.hh
+++ b/include/common/qvec.hh
@@ -277,7 +277,7 @@ public:
     template<typename F>
     constexpr qvec operator/=(const qvec<F, N> &other)
     {
-        return *this = *this * other;
+        return *this = *this / other;
     }
 
     [[nodiscard]] constexpr qvec<T, 3> xyz() const
-- 
2.43.0


From 178a824502096304b855f5118ce2aee951ff0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 05/39] fix: Quake 2 leaf maxs were rounded down when stored as
 16-bit integers

---
 common/bspfile_q2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile_q2.cc b/common/bspfile_q2.cc
index a49816b..06dadfc 100644
--- a/common/bspfile_q2.cc
+++ b/common/bspfile_q2.cc
@@ -180,7 +180,7 @@ q2_dleaf_t::q2_dleaf_t(const mleaf_t &model)
       cluster(numeric_cast<int16_t>(model.cluster, "dleaf_t::cluster")),
       area(numeric_cast<int16_t>(model.area, "dleaf_t::area")),
       mins(aabb_mins_cast<int16_t>(model.mins, "dleaf_t::mins")),
-      maxs(aabb_mins_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
+      maxs(aabb_maxs_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
       firstleafface(numeric_cast<uint16_t>(model.firstmarksurface, "dleaf_t::firstmarksurface")),
       numleaffaces(numeric_cast<uint16_t>(model.nummarksurfaces, "dleaf_t::nummarksurfaces")),
       firstleafbrush(numeric_cast<uint16_t>(model.firstleafbrush, "dleaf_t::firstleafbrush")),
-- 
2.43.0


From 3ce8385c7ff7c9378a313a9ef68746b36f786cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 06/39] fix: the text parser read past the end of data not
 followed by NUL

---
 common/parser.cc         | 35 ++++++++++++++++++++---------------
 include/common/parser.hh |  3 +++
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index c3df3e4..1e5362a 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -68,7 +68,7 @@ parser_t::parser_t(const void *start, size_t length, parser_source_location base
 }
 
 parser_t::parser_t(const std::string_view &view, parser_source_location base_location)
-    : parser_t(&view.front(), view.size(), base_location)
+    : parser_t(view.data(), view.size(), base_location)
 {
 }
 
@@ -82,6 +82,11 @@ parser_t::parser_t(const char *str, parser_source_location base_location)
 {
 }
 
+char parser_t::peek(size_t offset) const
+{
+    return offset < static_cast<size_t>(end - pos) ? pos[offset] : '\0';
+}
+
 bool parser_t::parse_token(parseflags flags)
 {
     /* for peek, we'll do a backup/restore. */
@@ -98,15 +103,15 @@ bool parser_t::parse_token(parseflags flags)
 
 skipspace:
     /* skip space */
-    while (at_end() || *pos <= 32) {
-        if (at_end() || !*pos) {
+    while (peek() <= 32) {
+        if (!peek()) {
             if (flags & PARSE_OPTIONAL)
                 return false;
             if (flags & PARSE_SAMELINE)
                 FError("{}: Line is incomplete", location);
             return false;
         }
-        if (*pos == '\n') {
+        if (peek() == '\n') {
             if (flags & PARSE_OPTIONAL)
                 return false;
             if (flags & PARSE_SAMELINE)
@@ -117,9 +122,9 @@ skipspace:
     }
 
     /* comment field */
-    if ((pos[0] == '/' && pos[1] == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
+    if ((peek() == '/' && peek(1) == '/') || peek() == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
-            while (*pos && *pos != '\n') {
+            while (peek() && peek() != '\n') {
                 *token_p++ = *pos++;
             }
             goto out;
@@ -129,7 +134,7 @@ skipspace:
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
         while (*pos++ != '\n') {
-            if (!*pos) {
+            if (!peek()) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
@@ -143,18 +148,18 @@ skipspace:
 
     /* copy token */
 
-    if (*pos == '"') {
+    if (peek() == '"') {
         was_quoted = true;
         pos++;
-        while (*pos != '"') {
-            if (!*pos)
+        while (peek() != '"') {
+            if (!peek())
                 FError("{}: EOF inside quoted token", location);
-            if (*pos == '\\') {
+            if (peek() == '\\') {
                 // small note. the vanilla quake engine just parses the "foo" stuff then goes and looks for \n
                 // explicitly within strings. this means ONLY \n works, and double-quotes cannot be used either in maps
                 // _NOR SAVED GAMES_. certain editors can write "wad" "c:\foo\" which is completely fucked. so lets try
                 // to prevent more brokenness and encourage map editors to switch to using sane wad keys.
-                switch (pos[1]) {
+                switch (peek(1)) {
                     case 'n':
                     case '\'':
                     case 'r':
@@ -177,14 +182,14 @@ skipspace:
                     case '9': // too lazy to validate these. doesn't break stuff.
                         break;
                     case '\"':
-                        if (pos[2] == '\r' || pos[2] == '\n') {
+                        if (peek(2) == '\r' || peek(2) == '\n') {
                             logging::print("WARNING: {}: escaped double-quote at end of string\n", location);
                         } else {
                             *token_p++ = *pos++;
                         }
                         break;
                     default:
-                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, pos[1]);
+                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, peek(1));
                         break;
                 }
             }
@@ -192,7 +197,7 @@ skipspace:
         }
         pos++;
     } else {
-        while (*pos > 32) {
+        while (peek() > 32) {
             *token_p++ = *pos++;
         }
     }
diff --git a/include/common/parser.hh b/include/common/parser.hh
index e882ae8..539673d 100644
--- a/include/common/parser.hh
+++ b/include/common/parser.hh
@@ -167,6 +167,9 @@ struct parser_t : parser_base_t
     bool at_end() const override;
 
 private:
+    // the character `offset` ahead, or NUL if that is past the end of the data
+    char peek(size_t offset = 0) const;
+
     std::vector<untied_t<state_type>> _states;
 
 public:
-- 
2.43.0


From c8d1b7e11e1a56bbee0b2406d8939e52a75d4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 07/39] fix: an entity key ending in white space was erased
 from the front

---
 common/entdata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/entdata.cc b/common/entdata.cc
index cbc72e5..541b3b2 100644
--- a/common/entdata.cc
+++ b/common/entdata.cc
@@ -169,11 +169,11 @@ void entdict_t::parse(parser_base_t &parser)
             FError("closing brace without data");
 
         // trim whitespace from start/end
-        while (std::isspace(keystr.front())) {
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.front()))) {
             keystr.erase(keystr.begin());
         }
-        while (std::isspace(keystr.back())) {
-            keystr.erase(keystr.cbegin());
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.back()))) {
+            keystr.pop_back();
         }
 
         set(keystr, parser.token);
-- 
2.43.0


From f453534e5c99aee510712391af64a5010f263830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:15 +0000
Subject: [PATCH 08/39] fix: map files lost QuArK texture alignment, read
 uninitialised surface values and mishandled empty keys

---
 common/mapfile.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 777c789..80a1592 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -189,7 +189,7 @@ void brush_side_t::parse_extended_texinfo(parser_t &parser)
     if (!parse_quark_comment(parser)) {
         // Parse extra Quake 2 surface info
         if (parser.parse_token(PARSE_OPTIONAL)) {
-            texinfo_quake2_t q2_info;
+            texinfo_quake2_t q2_info{};
 
             q2_info.contents = std::stoi(parser.token);
 
@@ -504,7 +504,7 @@ void brush_side_t::write_texinfo(std::ostream &stream, const texdef_valve_t &tex
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_etp_t &texdef)
 {
     write_texinfo(stream, (const texdef_quake_ed_t &) texdef);
-    ewt::print(stream, "//TX{}", texdef.tx2 ? '2' : '1');
+    ewt::print(stream, " //TX{}", texdef.tx2 ? '2' : '1');
 }
 
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_bp_t &texdef)
@@ -1051,11 +1051,11 @@ void map_entity_t::parse_entity_dict(parser_t &parser)
     std::string key = std::move(parser.token);
 
     // trim whitespace from start/end
-    while (std::isspace(key.front())) {
+    while (!key.empty() && std::isspace(static_cast<unsigned char>(key.front()))) {
         key.erase(key.begin());
     }
-    while (std::isspace(key.back())) {
-        key.erase(key.end() - 1);
+    while (!key.empty() && std::isspace(static_cast<unsigned char>(key.back()))) {
+        key.pop_back();
     }
 
     parser.parse_token(PARSE_SAMELINE);
-- 
2.43.0


From 5110f4bdf6691417bd662714f538fef6cbe6878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:15 +0000
Subject: [PATCH 09/39] fix: maputil scripts aborted on any map with non-Valve
 brushes

---
 maputil/maputil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index fb5ed6c..3e970e2 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -313,9 +313,9 @@ static void maputil_make_brush_side(lua_State *state, const brush_side_t &side)
 
     if (std::holds_alternative<texdef_quake_ed_t>(side.raw)) {
         lua_setfield(state, -2, "quaked");
-    } if (std::holds_alternative<texdef_etp_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_etp_t>(side.raw)) {
         lua_setfield(state, -2, "etp");
-    } if (std::holds_alternative<texdef_valve_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_valve_t>(side.raw)) {
         lua_setfield(state, -2, "valve");
     } else {
         lua_setfield(state, -2, "bp");
-- 
2.43.0


From 114210849a4e1d640bb7a1ba5303311a0833abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:38 +0000
Subject: [PATCH 10/39] fix: map committed by a maputil script had an unset
 brush format and no texture projection

---
 maputil/maputil.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index 3e970e2..3376d20 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -553,6 +553,19 @@ static void maputil_copy_side(lua_State *state, brush_side_t &side)
     }
 
     lua_pop(state, 1);
+
+    // derived values, as when parsing
+    qvec3d normal = qv::normalize(qv::cross(side.planepts[0] - side.planepts[1], side.planepts[2] - side.planepts[1]));
+    side.plane = {normal, qv::dot(side.planepts[1], normal)};
+
+    std::visit(
+        [&side](auto &&x) {
+            // not implemented for brush primitives yet
+            if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, texdef_bp_t>) {
+                side.set_texinfo(x);
+            }
+        },
+        side.raw);
 }
 
 static void maputil_copy_brush(lua_State *state, brush_t &brush)
@@ -567,6 +580,12 @@ static void maputil_copy_brush(lua_State *state, brush_t &brush)
         maputil_copy_side(state, side);
         return true;
     });
+
+    brush.base_format = texcoord_style_t::quaked;
+
+    if (!brush.faces.empty() && std::holds_alternative<texdef_bp_t>(brush.faces[0].raw)) {
+        brush.base_format = texcoord_style_t::brush_primitives;
+    }
 }
 
 static void maputil_copy_brushes(lua_State *state, map_entity_t &entity)
-- 
2.43.0


From dce739b0c0623bc17cbeb92eb217add67c1398b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:58 +0000
Subject: [PATCH 11/39] fix: converting a map to the Quake texture format
 shifted textures on walls

---
 common/mapfile.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 80a1592..59fc626 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -725,6 +725,7 @@ namespace convert_to_quaked
     static qvec2f evalTexDefAtPoint(const texdef_quake_ed_t &texdef, const qplane3d &faceplane, const qvec3f &point)
     {
         brush_side_t temp;
+        temp.plane = faceplane;
         temp.set_texinfo(texdef_quake_ed_t { texdef.shift, texdef.rotate, texdef.scale });
 
         const qmat4x4f worldToTexSpace_res = texVecsTo4x4Matrix(faceplane, temp.vecs);
-- 
2.43.0


From cb940a801425d11bc73ce2be514136644da9d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:47 +0000
Subject: [PATCH 12/39] fix: converting an alignment with slight shear to the
 Quake format lost it

The shear check tolerates an angle, but the decomposition was compared with an
absolute tolerance, so large axes fell through to a default alignment.
---
 common/mapfile.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 59fc626..0d67ade 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -688,8 +688,11 @@ namespace convert_to_quaked
                 const qmat2x2f applyAngleGuessM = rotation2x2_deg(angleGuess);
                 const qmat2x2f Mguess = applyGuessedFlipM * applyAbsScaleM * applyAngleGuessM * axisFlipsM;
 
-                if (fabs(M.at(0, 0) - Mguess.at(0, 0)) < 0.001 && fabs(M.at(1, 0) - Mguess.at(1, 0)) < 0.001 &&
-                    fabs(M.at(0, 1) - Mguess.at(0, 1)) < 0.001 && fabs(M.at(1, 1) - Mguess.at(1, 1)) < 0.001) {
+                // the shear tolerated above is an angle, so the difference it makes here scales with the axes
+                const double xEpsilon = 0.002 * absXscale, yEpsilon = 0.002 * absYscale;
+
+                if (fabs(M.at(0, 0) - Mguess.at(0, 0)) < xEpsilon && fabs(M.at(1, 0) - Mguess.at(1, 0)) < yEpsilon &&
+                    fabs(M.at(0, 1) - Mguess.at(0, 1)) < xEpsilon && fabs(M.at(1, 1) - Mguess.at(1, 1)) < yEpsilon) {
 
                     texdef_quake_ed_t reversed;
                     reversed.rotate = angleGuess;
-- 
2.43.0


From c20a1089495d3f2ad0968818e97e35d6357a4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:20 +0000
Subject: [PATCH 13/39] fix: converting to the Valve format wrote an
 uninitialised rotation

---
 common/mapfile.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 0d67ade..734f8ce 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -878,6 +878,9 @@ namespace convert_to_valve
             res.axis.set_row(i, axis);
         }
 
+        // the axes are already rotated
+        res.rotate = 0;
+
         return res;
     }
 };
-- 
2.43.0


From 6554a74ead45875007fe1dc1d99357b5f91d69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 14/39] fix: maputil copied uninitialised surface flags when a
 script committed surface info

---
 maputil/maputil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index 3376d20..54a8c80 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -535,7 +535,7 @@ static void maputil_copy_side(lua_State *state, brush_side_t &side)
     lua_getfield(state, -1, "info");
 
     if (lua_type(state, -1) == LUA_TTABLE) {
-        texinfo_quake2_t q2;
+        texinfo_quake2_t q2{};
 
         lua_getfield(state, -1, "contents");
         q2.contents = lua_tonumber(state, -1);
-- 
2.43.0


From 0b942992dee21dd9416520c6d6853233c242c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:58 +0000
Subject: [PATCH 15/39] fix: LoadLitFile appended a byte that is not in the
 file

---
 common/bsputils.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/bsputils.cc b/common/bsputils.cc
index 2b04800..7b263a0 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -1139,9 +1139,8 @@ std::vector<uint8_t> LoadLitFile(const fs::path &path)
     }
 
     std::vector<uint8_t> litdata;
-    while (stream.good()) {
-        uint8_t b;
-        stream >= b;
+    uint8_t b;
+    while (stream >= b) {
         litdata.push_back(b);
     }
 
-- 
2.43.0


From f961eb5c876846e139d2cc0052fa3afb57bf68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:23 +0000
Subject: [PATCH 16/39] fix: the cluster map of a portal file was ignored when
 there are as many leafs as clusters

---
 common/prtfile.cc | 4 ++--
 vis/soundpvs.cc   | 7 +------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 0720231..8f3ffee 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -118,8 +118,8 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     }
 
     // No clusters
-    if (result.portalleafs == result.portalleafs_real) {
-        // e.g. Quake 1, PRT1 (no func_detail).
+    if (magic == PORTALFILE) {
+        // Quake 1, PRT1 (no func_detail).
         // Assign the identity cluster numbers for consistency
 
         result.dleafinfos.resize(result.portalleafs + 1);
diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 225ca62..459d54e 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -83,12 +83,7 @@ void CalcAmbientSounds(mbsp_t *bsp)
         for (int j = 0; j < NUM_AMBIENTS; j++)
             dists[j] = 1020;
 
-        uint8_t *vis;
-        if (portalleafs != portalleafs_real) {
-            vis = &uncompressed[leaf->cluster * leafbytes_real];
-        } else {
-            vis = &uncompressed[i * leafbytes_real];
-        }
+        const uint8_t *vis = &uncompressed[leaf->cluster * leafbytes_real];
 
         for (int j = 0; j < portalleafs_real; j++) {
             if (!(vis[j >> 3] & nth_bit(j & 7)))
-- 
2.43.0


From 018f1e04c8604aa9270a5713291be80b120747e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:48 +0000
Subject: [PATCH 17/39] fix: PRT1-AM portal files with more leafs than clusters
 overflowed the cluster map

---
 common/prtfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 8f3ffee..759049c 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -152,7 +152,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         if (i < result.portalleafs)
             FError("Couldn't read cluster map ({} / {})\n", i, result.portalleafs);
     } else if (magic == PORTALFILEAM) {
-        result.dleafinfos.resize(result.portalleafs + 1);
+        result.dleafinfos.resize(result.portalleafs_real + 1);
 
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
-- 
2.43.0


From a30da7b1a39baaa62810c7731984d42fe67b5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:16 +0000
Subject: [PATCH 18/39] fix: the PHS left out clusters beyond the last full 64
 bits of a row

---
 vis/soundpvs.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 459d54e..c3b21fa 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -161,7 +161,6 @@ void CalcPHS(mbsp_t *bsp)
     logging::funcheader();
 
     const int32_t leafbytes = (portalleafs + 7) >> 3;
-    const int32_t leaflongs = leafbytes / sizeof(long);
 
     // increase the bits size with approximately how much space we'll need
     bsp->dvis.bits.reserve(bsp->dvis.bits.size() * 2);
@@ -195,10 +194,8 @@ void CalcPHS(mbsp_t *bsp)
                 const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-                long *dest = reinterpret_cast<long *>(uncompressed.data());
-                for (int32_t l = 0; l < leaflongs; l++)
-                    dest[l] |= src[l];
+                for (int32_t l = 0; l < leafbytes; l++)
+                    uncompressed[l] |= uncompressed_2[l];
             }
         }
         for (int32_t j = 0; j < portalleafs; j++)
-- 
2.43.0


From 0a9ef6ec9a2cc148affd5440346c9ef39d9dbc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:55 +0000
Subject: [PATCH 19/39] fix: vis used or choked on a state file that was cut
 short

---
 vis/state.cc | 77 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/vis/state.cc b/vis/state.cc
index 6059c64..88f865f 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -94,22 +94,27 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     return numbytes;
 }
 
-static void DecompressBits(leafbits_t &dst, const uint8_t *src)
+static bool DecompressBits(leafbits_t &dst, const uint8_t *src, size_t len)
 {
+    const uint8_t *const end = src + len;
     const size_t numbytes = (portalleafs + 7) >> 3;
 
     dst.resize(portalleafs);
 
     for (size_t i = 0; i < numbytes; i++) {
+        if (src == end)
+            return false;
         uint8_t val = *src++;
         uint32_t shift = (i << 3) & leafbits_t::mask;
         dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         if (val != 0 && val != 0xff)
             continue;
 
+        if (src == end)
+            return false;
         int32_t rep = *src++;
-        if (i + rep > numbytes)
-            FError("overflow");
+        if (rep == 0 || i + rep > numbytes)
+            return false;
 
         /* Already wrote the first byte, add (rep - 1) copies */
         while (--rep) {
@@ -118,6 +123,8 @@ static void DecompressBits(leafbits_t &dst, const uint8_t *src)
             dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         }
     }
+
+    return true;
 }
 
 static void CopyLeafBits(leafbits_t &dst, const uint8_t *src, size_t numleafs)
@@ -199,7 +206,6 @@ bool LoadVisState()
     fs::file_time_type prt_time, state_time;
     int numbytes;
     dvisstate_t state;
-    dportal_t pstate;
 
     if (vis_options.nostate.value()) {
         return false;
@@ -231,6 +237,12 @@ bool LoadVisState()
 
     in >= state;
 
+    /* A run that was killed while saving leaves an incomplete file behind */
+    if (!in) {
+        logging::print("State file is incomplete, will be overwritten\n");
+        return false;
+    }
+
     /* Sanity check the headers */
     if (state.version != VIS_STATE_VERSION) {
         FError("state file version does not match");
@@ -239,39 +251,48 @@ bool LoadVisState()
         FError("state file {} does not match portal file {}", statefile, portalfile);
     }
 
-    /* Move back the start time to simulate already elapsed time */
-    starttime -= duration(state.time_elapsed);
-
     numbytes = (portalleafs + 7) >> 3;
     std::vector<uint8_t> compressed(numbytes);
 
-    /* Update the portal information */
-    for (auto &p : portals) {
-        in >= pstate;
+    auto read_bits = [&](leafbits_t &bits, uint32_t len) {
+        if (len > numbytes || !in.read((char *)compressed.data(), len)) {
+            return false;
+        }
+        if (len < numbytes) {
+            return DecompressBits(bits, compressed.data(), len);
+        }
+        CopyLeafBits(bits, compressed.data(), portalleafs);
+        return true;
+    };
 
-        p.status = static_cast<pstatus_t>(pstate.status);
-        p.nummightsee = pstate.nummightsee;
-        p.numcansee = pstate.numcansee;
+    /* Read everything before touching the portals, in case the file is incomplete */
+    std::vector<dportal_t> pstates(portals.size());
+    std::vector<leafbits_t> mightsee(portals.size()), visbits(portals.size());
 
-        in.read((char *)compressed.data(), pstate.might);
-        p.mightsee.resize(portalleafs);
+    for (size_t i = 0; i < portals.size(); i++) {
+        in >= pstates[i];
 
-        if (pstate.might < numbytes) {
-            DecompressBits(p.mightsee, compressed.data());
-        } else {
-            CopyLeafBits(p.mightsee, compressed.data(), portalleafs);
+        visbits[i].resize(portalleafs);
+
+        if (!in || !read_bits(mightsee[i], pstates[i].might) ||
+            (pstates[i].vis && !read_bits(visbits[i], pstates[i].vis))) {
+            logging::print("State file is incomplete, will be overwritten\n");
+            return false;
         }
+    }
 
-        p.visbits.resize(portalleafs);
+    /* Move back the start time to simulate already elapsed time */
+    starttime -= duration(state.time_elapsed);
 
-        if (pstate.vis) {
-            in.read((char *)compressed.data(), pstate.vis);
-            if (pstate.vis < numbytes) {
-                DecompressBits(p.visbits, compressed.data());
-            } else {
-                CopyLeafBits(p.visbits, compressed.data(), portalleafs);
-            }
-        }
+    /* Update the portal information */
+    for (size_t i = 0; i < portals.size(); i++) {
+        auto &p = portals[i];
+
+        p.status = static_cast<pstatus_t>(pstates[i].status);
+        p.nummightsee = pstates[i].nummightsee;
+        p.numcansee = pstates[i].numcansee;
+        p.mightsee = std::move(mightsee[i]);
+        p.visbits = std::move(visbits[i]);
 
         /* Portals that were in progress need to be started again */
         if (p.status == pstat_working) {
-- 
2.43.0


From 452497b6d8608e823b41e9d911b7e1e35539f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 20/39] fix: "_no..." keys set an invertible option instead of
 clearing it

The option is found after stripping leading underscores, but the inversion
was decided on the name as written, so "_nochop" turned chop on.
---
 common/settings.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index b70f334..21d1ee6 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -178,7 +178,10 @@ setting_invertible_bool::setting_invertible_bool(
 
 bool setting_invertible_bool::parse(const std::string &setting_name, parser_base_t &parser, source source)
 {
-    return parseInternal(parser, source, setting_name.compare(0, 2, "no") == 0 ? false : true);
+    // same as find_setting, leading underscores aren't part of the name
+    const size_t start = std::min(setting_name.find_first_not_of('_'), setting_name.size());
+
+    return parseInternal(parser, source, setting_name.compare(start, 2, "no") == 0 ? false : true);
 }
 
 // setting_redirect
-- 
2.43.0


From c044fb9c3a7f68a1944e66e3b3a8c6428efec94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 21/39] fix: memory streams read, wrote and seeked beyond their
 buffer

A read or write longer than what is left copied the full length, and
seeks could leave the buffer, so truncated lumps and image files were read
out of bounds.
---
 common/cmdlib.cc | 77 +++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 44 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index f90d9b2..7190ad4 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -152,59 +152,50 @@ void membuf::setpptrs(char *first, char *next, char *end)
 
 membuf::pos_type membuf::seekpos(pos_type off, std::ios_base::openmode which)
 {
-    if (which & std::ios_base::in) {
-        setg(eback(), eback() + off, egptr());
-    }
-
-    if (which & std::ios_base::out) {
-        setpptrs(pbase(), pbase() + off, epptr());
-    }
-
-    if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
-    }
+    return seekoff(off, std::ios_base::beg, which);
 }
 
+// moving out of the buffer is an error, as it is for std::stringbuf
 membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
 {
-    if (which & std::ios_base::in) {
-        if (dir == std::ios_base::cur)
-            gbump(off);
-        else if (dir == std::ios_base::end)
-            setg(eback(), egptr() + off, egptr());
-        else if (dir == std::ios_base::beg)
-            setg(eback(), eback() + off, egptr());
-    }
+    pos_type result = pos_type(off_type(-1));
 
     if (which & std::ios_base::out) {
-        if (dir == std::ios_base::cur)
-            pbump(off);
-        else if (dir == std::ios_base::end)
-            setpptrs(pbase(), epptr() + off, epptr());
-        else if (dir == std::ios_base::beg)
-            setpptrs(pbase(), pbase() + off, epptr());
+        off_type base = dir == std::ios_base::cur ? pptr() - pbase() : dir == std::ios_base::end ? epptr() - pbase() : 0;
+        off_type size = epptr() - pbase();
+
+        if (off < -base || off > size - base) {
+            return pos_type(off_type(-1));
+        }
+
+        setpptrs(pbase(), pbase() + base + off, epptr());
+        result = pptr() - pbase();
     }
 
     if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
+        off_type base = dir == std::ios_base::cur ? gptr() - eback() : dir == std::ios_base::end ? egptr() - eback() : 0;
+        off_type size = egptr() - eback();
+
+        if (off < -base || off > size - base) {
+            return pos_type(off_type(-1));
+        }
+
+        setg(eback(), eback() + base + off, egptr());
+        result = gptr() - eback();
     }
+
+    return result;
 }
 
 std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
 {
-    if (pptr() == epptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = epptr() - pptr();
     std::streamsize num_write = std::min(free_space, n);
 
-    memcpy(pptr(), s, n);
-    setpptrs(pbase(), pptr() + n, epptr());
+    if (num_write > 0) {
+        memcpy(pptr(), s, num_write);
+        setpptrs(pbase(), pptr() + num_write, epptr());
+    }
 
     return num_write;
 }
@@ -216,15 +207,13 @@ membuf::int_type membuf::overflow(int_type ch)
 
 std::streamsize membuf::xsgetn(char_type *s, std::streamsize n)
 {
-    if (gptr() == egptr()) {
-        return traits_type::eof();
-    }
-
-    std::streamsize free_space = egptr() - gptr();
-    std::streamsize num_read = std::min(free_space, n);
+    std::streamsize available = egptr() - gptr();
+    std::streamsize num_read = std::min(available, n);
 
-    memcpy(s, gptr(), n);
-    setg(eback(), gptr() + n, egptr());
+    if (num_read > 0) {
+        memcpy(s, gptr(), num_read);
+        setg(eback(), gptr() + num_read, egptr());
+    }
 
     return num_read;
 }
-- 
2.43.0


From 1af2b5d27ea80e4e9d6852304c5b4c2b56e04770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 22/39] fix: "-path some.pak" ended every Quake 2 compile with
 an exception

The search for .pak files inside an added path assumed it is a directory.
---
 common/bspfile.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f79d0ec..3fc41b1 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1366,7 +1366,11 @@ public:
     inline void addArchive(const fs::path &path) const
     {
         fs::addArchive(path, true);
-        discoverArchives(path);
+
+        // the path may also be an archive itself
+        if (fs::is_directory(path)) {
+            discoverArchives(path);
+        }
     }
 
     void init_filesystem(const fs::path &source, const settings::common_settings &options) const override
-- 
2.43.0


From 0de6ebfc2967a313c12f0eedcb00bb43dc8c68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 23/39] fix: damaged archives and folders named like a file
 broke file loading

Names filling their whole field in pak/wad directories were read past the
end, truncated directories added uninitialised entries (or looped over
billions of them), an entry beyond the end of the archive returned zeros
and made all later loads from that archive fail, and a folder with the
same name as a requested file hid the file in other search paths.
---
 common/fs.cc | 73 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 2f98216..55b5cff 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -24,6 +24,7 @@
 #include "common/log.hh"
 #include <fstream>
 #include <memory>
+#include <algorithm>
 #include <array>
 #include <list>
 #include <stdexcept>
@@ -37,7 +38,10 @@ struct directory_archive : archive_like
 
     bool contains(const path &filename) override
     {
-        return exists(!pathname.empty() ? (pathname / filename) : filename);
+        path p = !pathname.empty() ? (pathname / filename) : filename;
+
+        // a directory called "light" is not a file called "light"
+        return exists(p) && !is_directory(p);
     }
 
     data load(const path &filename) override
@@ -61,6 +65,35 @@ struct directory_archive : archive_like
     }
 };
 
+// reads `size` bytes at `offset` of an archive; nothing if the archive ends before that
+static data read_archive_entry(std::ifstream &stream, uint32_t offset, uint32_t size)
+{
+    // an earlier entry may have failed to load
+    stream.clear();
+    stream.seekg(0, std::ios_base::end);
+
+    if (!stream || static_cast<uint64_t>(offset) + size > static_cast<uint64_t>(stream.tellg())) {
+        return std::nullopt;
+    }
+
+    stream.seekg(offset);
+    std::vector<uint8_t> data(size);
+    stream.read(reinterpret_cast<char *>(data.data()), size);
+
+    if (!stream) {
+        return std::nullopt;
+    }
+
+    return data;
+}
+
+// names fill their whole field if they're long enough, in which case there's no terminator
+template<size_t N>
+static std::string archive_entry_name(const std::array<char, N> &name)
+{
+    return {name.begin(), std::find(name.begin(), name.end(), '\0')};
+}
+
 struct pak_archive : archive_like
 {
     std::ifstream pakstream;
@@ -96,14 +129,16 @@ struct pak_archive : archive_like
 
         pakstream >= header;
 
+        if (!pakstream) {
+            throw std::runtime_error("Truncated header");
+        }
+
         if (header.magic != std::array<char, 4>{'P', 'A', 'C', 'K'}) {
             throw std::runtime_error("Bad magic");
         }
 
         size_t totalFiles = header.size / sizeof(pak_file);
 
-        files.reserve(totalFiles);
-
         pakstream.seekg(header.offset);
 
         for (size_t i = 0; i < totalFiles; i++) {
@@ -111,7 +146,11 @@ struct pak_archive : archive_like
 
             pakstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.offset, file.size);
+            if (!pakstream) {
+                throw std::runtime_error("Truncated directory");
+            }
+
+            files[archive_entry_name(file.name)] = std::make_tuple(file.offset, file.size);
         }
     }
 
@@ -125,11 +164,8 @@ struct pak_archive : archive_like
             return std::nullopt;
         }
 
-        pakstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        pakstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        auto [offset, size] = it->second;
+        return read_archive_entry(pakstream, offset, size);
     }
 };
 
@@ -176,12 +212,14 @@ struct wad_archive : archive_like
 
         wadstream >= header;
 
+        if (!wadstream) {
+            throw std::runtime_error("Truncated header");
+        }
+
         if (header.identification != wad2_ident && header.identification != wad3_ident) {
             throw std::runtime_error("Bad magic");
         }
 
-        files.reserve(header.numlumps);
-
         wadstream.seekg(header.infotableofs);
 
         for (size_t i = 0; i < header.numlumps; i++) {
@@ -189,7 +227,11 @@ struct wad_archive : archive_like
 
             wadstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.filepos, file.disksize);
+            if (!wadstream) {
+                throw std::runtime_error("Truncated directory");
+            }
+
+            files[archive_entry_name(file.name)] = std::make_tuple(file.filepos, file.disksize);
         }
     }
 
@@ -203,11 +245,8 @@ struct wad_archive : archive_like
             return std::nullopt;
         }
 
-        wadstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        wadstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        auto [offset, size] = it->second;
+        return read_archive_entry(wadstream, offset, size);
     }
 };
 
-- 
2.43.0


From 2563499cb681ef220d5600133fdd1e857f192776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 24/39] fix: image loaders trusted sizes and offsets in damaged
 files

A truncated wal gave a texture with uninitialised or missing contents, sizes
whose product overflows passed the bounds check, names filling their field
and palette files shorter than a palette were read out of bounds, and the
average colour of a texture without opaque pixels was a division by zero.
---
 common/imglib.cc | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/common/imglib.cc b/common/imglib.cc
index 4b4079b..413b454 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -63,11 +63,16 @@ static bool LoadPCXPalette(const fs::path &filename, std::vector<qvec3b> &palett
     pcx_t pcx;
     stream >= pcx;
 
-    if (pcx.manufacturer != 0x0a || pcx.version != 5 || pcx.encoding != 1 || pcx.bits_per_pixel != 8) {
+    if (!stream || pcx.manufacturer != 0x0a || pcx.version != 5 || pcx.encoding != 1 || pcx.bits_per_pixel != 8) {
         logging::funcprint("Failed to load '{}'. Unsupported PCX file.\n", filename);
         return false;
     }
 
+    if (file->size() < 768) {
+        logging::funcprint("Failed to load '{}'. No room for a palette.\n", filename);
+        return false;
+    }
+
     palette.resize(256);
 
     stream.seekg(file->size() - 768);
@@ -107,6 +112,12 @@ static void convert_paletted_to_32_bit(
     }
 }
 
+// whether a mip of the given size, at the given offset, lies within the file
+static bool mip_fits(uint32_t offset, uint32_t width, uint32_t height, uint64_t file_size)
+{
+    return offset <= file_size && static_cast<uint64_t>(width) * height <= file_size - offset;
+}
+
 /*
 ============================================================================
 WAL IMAGE
@@ -135,6 +146,12 @@ std::optional<texture> load_wal(
     q2_miptex_t mt;
     stream >= mt;
 
+    // must be able to at least read the header
+    if (!stream) {
+        logging::funcprint("Failed to fully load wal {}. Header incomplete.\n", name);
+        return std::nullopt;
+    }
+
     texture tex;
 
     tex.meta.extension = ext::WAL;
@@ -148,9 +165,15 @@ std::optional<texture> load_wal(
     tex.meta.contents_native = mt.contents;
     tex.meta.flags = {mt.flags};
     tex.meta.value = mt.value;
-    tex.meta.animation = mt.animname.data();
+    tex.meta.animation = {mt.animname.begin(), std::find(mt.animname.begin(), mt.animname.end(), '\0')};
 
     if (!meta_only) {
+        // sanity check
+        if (!mip_fits(mt.offsets[0], mt.width, mt.height, file->size())) {
+            logging::funcprint("wal offset0 overrun for {}\n", name);
+            return tex;
+        }
+
         stream.seekg(mt.offsets[0]);
         std::vector<uint8_t> pixels(mt.width * mt.height);
         stream.read(reinterpret_cast<char *>(pixels.data()), pixels.size());
@@ -201,7 +224,7 @@ std::optional<texture> load_mip(
 
         // convert the data into RGBA.
         // sanity check
-        if (header.offsets[0] + (header.width * header.height) > file->size()) {
+        if (!mip_fits(header.offsets[0], header.width, header.height, file->size())) {
             logging::funcprint("mip offset0 overrun for {}\n", name);
             return tex;
         }
@@ -220,8 +243,8 @@ std::optional<texture> load_mip(
         if (game->id == GAME_HALF_LIFE) {
             bool valid_mip_palette = true;
 
-            int32_t mip3_size = (header.width >> 3) * (header.height >> 3);
-            size_t palette_size = sizeof(uint16_t) + (sizeof(qvec3b) * 256);
+            uint64_t mip3_size = static_cast<uint64_t>(header.width >> 3) * (header.height >> 3);
+            uint64_t palette_size = sizeof(uint16_t) + (sizeof(qvec3b) * 256);
 
             if (header.offsets[3] <= 0) {
                 logging::funcprint("mip palette needs offset3 to work, for {}\n", name);
@@ -323,6 +346,10 @@ qvec3b calculate_average(const std::vector<qvec4b> &pixels)
         }
     }
 
+    if (!n) {
+        return {};
+    }
+
     return avg /= n;
 }
 
-- 
2.43.0


From adce6aeb58aaa922067a7639c1f2ee4724a5dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:59 +0000
Subject: [PATCH 25/39] fix: damaged .bsp files were read out of bounds

Lumps and BSPX entries outside the file, truncated headers, impossible
counts in the texture, visibility and brush list lumps and names without
terminator led to out-of-bounds reads, uninitialised values or unbounded
allocations; they are refused now. Textures of a Quake BSP may be stored
in any order (those before a lower offset were read as empty).
---
 common/bspfile.cc                 | 61 +++++++++++++++++++++++--------
 common/bspfile_generic.cc         | 46 +++++++++++++----------
 common/bsputils.cc                |  8 +++-
 common/bspxfile.cc                | 19 ++++++----
 include/common/bspfile_generic.hh |  4 +-
 5 files changed, 93 insertions(+), 45 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 3fc41b1..870dd39 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1983,7 +1983,7 @@ bool ConvertBSPFormat(bspdata_t *bspdata, const bspversion_t *to_version)
     return false;
 }
 
-static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
+static bool isHexen2(const dheader_t *header, const std::vector<uint8_t> &file_data, const bspversion_t *bspversion)
 {
     if (0 != (header->lumps[LUMP_MODELS].filelen % sizeof(dmodelh2_t))) {
         // definitely not H2
@@ -2007,33 +2007,38 @@ static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
     const int clipnodes_count = header->lumps[LUMP_CLIPNODES].filelen / bytes_per_clipnode;
 
     // assume H2, and do some basic validation
-    // FIXME: this potentially does unaligned reads, convert to using streams like the rest of the loading code
 
-    const dmodelh2_t *models_h2 = (const dmodelh2_t *)((const uint8_t *)header + header->lumps[LUMP_MODELS].fileofs);
+    imemstream stream(file_data.data(), file_data.size());
+    stream >> endianness<std::endian::little>;
+    stream.seekg(header->lumps[LUMP_MODELS].fileofs);
+
     const int models_h2_count = header->lumps[LUMP_MODELS].filelen / sizeof(dmodelh2_t);
 
     for (int i = 0; i < models_h2_count; ++i) {
-        const dmodelh2_t *model = &models_h2[i];
+        dmodelh2_t model;
+
+        if (!(stream >= model))
+            return false;
 
         // visleafs
-        if (model->visleafs < 0 || model->visleafs > leafs_count)
+        if (model.visleafs < 0 || model.visleafs > leafs_count)
             return false;
 
         // numfaces, firstface
-        if (model->numfaces < 0)
+        if (model.numfaces < 0)
             return false;
-        if (model->firstface < 0)
+        if (model.firstface < 0)
             return false;
-        if (model->firstface + model->numfaces > faces_count)
+        if (static_cast<int64_t>(model.firstface) + model.numfaces > faces_count)
             return false;
 
         // headnode[0]
-        if (model->headnode[0] >= nodes_count)
+        if (model.headnode[0] >= nodes_count)
             return false;
 
         // clipnode headnodes
         for (int j = 1; j < 8; ++j) {
-            if (model->headnode[j] >= clipnodes_count)
+            if (model.headnode[j] >= clipnodes_count)
                 return false;
         }
     }
@@ -2047,6 +2052,16 @@ struct lump_reader
     std::istream &s;
     const bspversion_t *version;
     const std::vector<lump_t> &lumps;
+    size_t file_size;
+
+    // empty lumps may have any offset
+    void check(const lumpspec_t &lumpspec, const lump_t &lump) const
+    {
+        if (lump.filelen && (lump.filelen < 0 || lump.fileofs < 0 ||
+                                static_cast<uint64_t>(lump.fileofs) + lump.filelen > file_size)) {
+            FError("{} lump is outside of the file", lumpspec.name);
+        }
+    }
 
     // read structured lump data from stream into vector
     template<typename T>
@@ -2059,6 +2074,8 @@ struct lump_reader
 
         Q_assert(!buffer.size());
 
+        check(lumpspec, lump);
+
         if (lumpspec.size > 1) {
             if (sizeof(T) != lumpspec.size)
                 FError("odd {} value size ({} != {})", lumpspec.name, sizeof(T), lumpspec.size);
@@ -2097,6 +2114,8 @@ struct lump_reader
         Q_assert(lumpspec.size == 1);
         Q_assert(!buffer.size());
 
+        check(lumpspec, lump);
+
         buffer.resize(lump.filelen);
 
         if (!lump.filelen)
@@ -2130,6 +2149,8 @@ struct lump_reader
 
         Q_assert(lumpspec.size == 1);
 
+        check(lumpspec, lump);
+
         s.seekg(lump.fileofs);
 
         buffer.stream_read(s, lump);
@@ -2223,6 +2244,7 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
 
     /* transfer the header data to this */
     std::vector<lump_t> lumps;
+    dheader_t q1header{};
 
     /* check for IBSP */
     bspversion_t temp_version{};
@@ -2236,20 +2258,23 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
         temp_version.version = q2header.version;
         std::copy(q2header.lumps.begin(), q2header.lumps.end(), std::back_inserter(lumps));
     } else {
-        dheader_t q1header;
         stream >= q1header;
 
         temp_version.version = std::nullopt;
         std::copy(q1header.lumps.begin(), q1header.lumps.end(), std::back_inserter(lumps));
     }
 
+    if (!stream) {
+        FError("\"{}\" is too short to be a .bsp file\n", filename);
+    }
+
     /* check the file version */
     if (!BSPVersionSupported(temp_version.ident, temp_version.version, &bspdata->version)) {
         logging::print("BSP is version {}\n", temp_version);
         Error("Sorry, this bsp version is not supported.");
     } else {
         // special case handling for Hexen II
-        if (bspdata->version->game->id == GAME_QUAKE && isHexen2((dheader_t *)file_data->data(), bspdata->version)) {
+        if (bspdata->version->game->id == GAME_QUAKE && isHexen2(&q1header, *file_data, bspdata->version)) {
             if (bspdata->version == &bspver_q1) {
                 bspdata->version = &bspver_h2;
             } else if (bspdata->version == &bspver_bsp2) {
@@ -2262,7 +2287,7 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
         logging::print("BSP is version {}\n", *bspdata->version);
     }
 
-    lump_reader reader{stream, bspdata->version, lumps};
+    lump_reader reader{stream, bspdata->version, lumps, file_data->size()};
 
     /* copy the data */
     if (bspdata->version == &bspver_q2) {
@@ -2284,7 +2309,7 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
     // detect BSPX
     /*bspx header is positioned exactly+4align at the end of the last lump position (regardless of order)*/
     for (i = 0, bspxofs = 0; i < lumps.size(); i++) {
-        bspxofs = std::max(bspxofs, static_cast<size_t>(lumps[i].fileofs + lumps[i].filelen));
+        bspxofs = std::max(bspxofs, static_cast<size_t>(std::max(static_cast<int64_t>(0), static_cast<int64_t>(lumps[i].fileofs) + lumps[i].filelen)));
     }
 
     bspxofs = (bspxofs + 3) & ~3;
@@ -2309,12 +2334,16 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
                 return;
             }
 
-            if (xlump.fileofs > file_data->size() || (xlump.fileofs + xlump.filelen) > file_data->size()) {
+            if (static_cast<uint64_t>(xlump.fileofs) + xlump.filelen > file_data->size()) {
                 logging::print("WARNING: invalid BSPX lump at index {}\n", i);
                 return;
             }
 
-            bspdata->bspx.transfer(xlump.lumpname.data(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
+            // the name may fill the whole field
+            const std::string name(
+                xlump.lumpname.begin(), std::find(xlump.lumpname.begin(), xlump.lumpname.end(), '\0'));
+
+            bspdata->bspx.transfer(name.c_str(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
                                                               file_data->begin() + xlump.fileofs + xlump.filelen));
         }
     }
diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 879f7e5..89c2a1b 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -19,6 +19,10 @@
 
 #include <common/bspfile.hh>
 #include <common/cmdlib.hh>
+#include <common/log.hh>
+
+#include <algorithm>
+#include <set>
 
 // dmodelh2_t
 
@@ -60,6 +64,13 @@ void mvis_t::stream_read(std::istream &stream, const lump_t &lump)
 
     stream >= numclusters;
 
+    // there must be room for the offset table
+    const int64_t table_size = static_cast<int64_t>(numclusters) * sizeof(bit_offsets[0]);
+
+    if (!stream || numclusters < 0 || table_size + static_cast<int64_t>(sizeof(numclusters)) > lump.filelen) {
+        FError("invalid number of clusters in visibility lump");
+    }
+
     resize(numclusters);
 
     // read cluster -> offset tables
@@ -115,10 +126,10 @@ void miptex_t::stream_read(std::istream &stream, size_t len)
 
     imemstream miptex_stream(data.data(), len);
 
-    dmiptex_t dtex;
+    dmiptex_t dtex{};
     miptex_stream >= dtex;
 
-    name = dtex.name.data();
+    name = {dtex.name.begin(), std::find(dtex.name.begin(), dtex.name.end(), '\0')};
     width = dtex.width;
     height = dtex.height;
     offsets = dtex.offsets;
@@ -136,6 +147,13 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
     int32_t nummiptex;
     stream >= nummiptex;
 
+    // there must be room for the offset table
+    const int64_t table_size = static_cast<int64_t>(nummiptex) * sizeof(int32_t);
+
+    if (!stream || nummiptex < 0 || table_size + static_cast<int64_t>(sizeof(nummiptex)) > lump.filelen) {
+        FError("invalid number of textures in texture lump");
+    }
+
     // load in all of the offsets, we need them
     // to calculate individual data sizes
     std::vector<int32_t> offsets(nummiptex);
@@ -144,6 +162,10 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
         stream >= offsets[i];
     }
 
+    // a texture ends at the next higher offset (they can be in any order), or at the end of the overall lump
+    std::set<int32_t> boundaries(offsets.begin(), offsets.end());
+    boundaries.insert(lump.filelen);
+
     for (size_t i = 0; i < nummiptex; i++) {
         miptex_t &tex = textures.emplace_back();
 
@@ -161,24 +183,10 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
         stream.seekg(lump.fileofs + offset);
 
         // calculate the length of the data used for the individual miptex.
-        int32_t next_offset = -1;
-
-        // scan forward (skipping -1's) to find the next valid offset
-        for (int j = i + 1; j < nummiptex; ++j) {
-            // valid?
-            if (offsets[j] >= 0) {
-                next_offset = offsets[j];
-                break;
-            }
-        }
-        if (next_offset == -1) {
-            // the remainder of the texures are missing, so read to the end
-            // of the overall lump
-            next_offset = lump.filelen;
-        }
+        auto next_offset = boundaries.upper_bound(offset);
 
-        if (next_offset > offset) {
-            tex.stream_read(stream, next_offset - offset);
+        if (offset < lump.filelen) {
+            tex.stream_read(stream, std::min(*next_offset, lump.filelen) - offset);
         }
     }
 }
diff --git a/common/bsputils.cc b/common/bsputils.cc
index 7b263a0..1969865 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -785,7 +785,7 @@ bspx_decoupled_lm_perface BSPX_DecoupledLM(const bspxentries_t &entries, int fac
     stream.seekg(face_num * sizeof(bspx_decoupled_lm_perface));
     stream >> endianness<std::endian::little>;
 
-    bspx_decoupled_lm_perface result;
+    bspx_decoupled_lm_perface result{};
     stream >= result;
     return result;
 }
@@ -802,6 +802,12 @@ std::optional<bspxfacenormals> BSPX_FaceNormals(const mbsp_t &bsp, const bspxent
 
     bspxfacenormals result;
     result.stream_read(stream, bsp);
+
+    if (!stream) {
+        // doesn't belong to this bsp, or damaged
+        return std::nullopt;
+    }
+
     return result;
 }
 
diff --git a/common/bspxfile.cc b/common/bspxfile.cc
index c80c771..1b87ba4 100644
--- a/common/bspxfile.cc
+++ b/common/bspxfile.cc
@@ -108,13 +108,13 @@ void bspxbrushes_permodel::stream_read(std::istream &s)
 
     s >= modelnum;
 
-    int32_t numbrushes;
+    int32_t numbrushes = 0;
     s >= numbrushes;
     s >= numfaces;
 
-    brushes.resize(numbrushes);
-    for (auto &brush : brushes) {
-        s >= brush;
+    // (the lump may end early)
+    for (int32_t i = 0; s && i < numbrushes; i++) {
+        s >= brushes.emplace_back();
     }
 }
 
@@ -166,7 +166,7 @@ void bspxfacenormals_per_face::stream_write(std::ostream &s) const
 
 void bspxfacenormals_per_face::stream_read(std::istream &s, const mface_t &f)
 {
-    for (int i = 0; i < f.numedges; ++i) {
+    for (int i = 0; s && i < f.numedges; ++i) {
         bspxfacenormals_per_vert v;
         s >= v;
         per_vert.push_back(v);
@@ -196,10 +196,11 @@ void bspxfacenormals::stream_read(std::istream &s, const mbsp_t &bsp)
     per_face.clear();
 
     // read normals table
-    uint32_t size;
+    uint32_t size = 0;
     s >= size;
 
-    for (uint32_t i = 0; i < size; ++i) {
+    // (the lump may end early)
+    for (uint32_t i = 0; s && i < size; ++i) {
         qvec3f v;
         s >= v;
         normals.push_back(v);
@@ -207,6 +208,10 @@ void bspxfacenormals::stream_read(std::istream &s, const mbsp_t &bsp)
 
     // read, based on the faces in the provided bsp
     for (const auto &f : bsp.dfaces) {
+        if (!s) {
+            return;
+        }
+
         bspxfacenormals_per_face pf;
         pf.stream_read(s, f);
         per_face.push_back(pf);
diff --git a/include/common/bspfile_generic.hh b/include/common/bspfile_generic.hh
index 60cb29e..a11d352 100644
--- a/include/common/bspfile_generic.hh
+++ b/include/common/bspfile_generic.hh
@@ -102,7 +102,7 @@ struct dmiptex_t
 struct miptex_t
 {
     std::string name;
-    uint32_t width, height;
+    uint32_t width = 0, height = 0;
     std::vector<uint8_t> data;
     /**
      * set at read time if the offset is -1
@@ -111,7 +111,7 @@ struct miptex_t
     /**
      * exposed for testing -notex
      */
-    std::array<int32_t, MIPLEVELS> offsets;
+    std::array<int32_t, MIPLEVELS> offsets{};
 
     size_t stream_size() const;
 
-- 
2.43.0


From e103faceaba67db23041f302303a675e89c99475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 26/39] fix: a .wal_json lost the values of the .wal it does
 not override

---
 common/imglib.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/imglib.cc b/common/imglib.cc
index 413b454..bbe4e6c 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -406,10 +406,12 @@ std::optional<texture_meta> load_wal_json_meta(
         meta.name = name;
 
         {
-            fs::path wal = fs::path(name).replace_extension(".wal");
+            // the .wal is next to the .wal_json, see load_texture_meta
+            fs::path wal = (game->id == GAME_QUAKE_II) ? fs::path("textures") / name : fs::path(name);
+            wal += ".wal";
 
             if (auto wal_file = fs::load(wal))
-                if (auto wal_meta = load_wal_meta(wal.string(), wal_file, game))
+                if (auto wal_meta = load_wal_meta(name, wal_file, game))
                     meta = *wal_meta;
         }
 
@@ -454,6 +456,7 @@ std::optional<texture_meta> load_wal_json_meta(
             } else if (flags.is_string()) {
                 meta.flags.native = game->surfflags_from_string(flags.get<std::string>());
             } else if (flags.is_array()) {
+                meta.flags.native = 0;
                 for (auto &flag : flags) {
                     if (flag.is_number_integer()) {
                         meta.flags.native |= flag.get<int32_t>();
-- 
2.43.0


From 14a3797b92a0940ae9b35a99153d974dd74faef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 27/39] fix: bspinfo wrote ambiguous hex, mixed up PVS and PHS,
 and failed on large lightmaps, non-ASCII text and missing palettes

---
 common/bspinfo.cc | 20 ++++++++++++++------
 common/imglib.cc  |  6 ++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 932441a..7493b02 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -40,7 +40,7 @@ static std::string hex_string(const uint8_t *bytes, const size_t count)
     std::string str;
 
     for (size_t i = 0; i < count; ++i) {
-        fmt::format_to(std::back_inserter(str), "{:x}", bytes[i]);
+        fmt::format_to(std::back_inserter(str), "{:02x}", bytes[i]);
     }
 
     return str;
@@ -236,7 +236,8 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         size_t x = 0, y = 0;
     };
 
-    constexpr size_t atlas_size = 512;
+    // page size, larger if some face doesn't fit
+    size_t atlas_size = 512;
     const uint8_t *lightdata_source;
     bool is_rgb;
     bool is_lit;
@@ -309,6 +310,10 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         return {};
     }
 
+    for (auto &rect : rectangles) {
+        atlas_size = std::max({atlas_size, (size_t)rect.extents.width() + 1, (size_t)rect.extents.height() + 1});
+    }
+
     // sort faces
     std::sort(rectangles.begin(), rectangles.end(), [](const face_rect &a, const face_rect &b) -> bool {
         int32_t a_height = a.extents.height();
@@ -572,7 +577,7 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
             json &visdata = (j.emplace("visdata", json::object())).first.value();
 
             json &pvs = (visdata.emplace("pvs", json::array())).first.value();
-            json &phs = (visdata.emplace("pvs", json::array())).first.value();
+            json &phs = (visdata.emplace("phs", json::array())).first.value();
 
             for (auto &offset : bsp.dvis.bit_offsets) {
                 pvs.push_back(offset[VIS_PVS]);
@@ -784,8 +789,11 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
 
             if (src_tex.data.size() > sizeof(dmiptex_t)) {
                 json &mips = tex["mips"] = json::array();
-                mips.emplace_back(
-                    serialize_image(img::load_mip(src_tex.name, src_tex.data, false, bspdata.loadversion->game)));
+                auto image = img::load_mip(src_tex.name, src_tex.data, false, bspdata.loadversion->game);
+                // no pixels if they are missing or there is no palette for them
+                if (image && !image->pixels.empty()) {
+                    mips.emplace_back(serialize_image(image));
+                }
             }
         }
     }
@@ -825,7 +833,7 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
     export_obj_and_lightmaps(bsp, bspdata.bspx.entries, false, true, fs::path(name).replace_extension(".geometry.obj"),
         fs::path(name).replace_extension(".lm.png"));
 
-    std::ofstream(name, std::fstream::out | std::fstream::trunc) << std::setw(4) << j;
+    std::ofstream(name, std::fstream::out | std::fstream::trunc) << j.dump(4, ' ', false, json::error_handler_t::replace);
 
     logging::print("wrote {}\n", name);
 }
diff --git a/common/imglib.cc b/common/imglib.cc
index bbe4e6c..8729ded 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -272,6 +272,12 @@ std::optional<texture> load_mip(
             }
         }
 
+        // Half Life has no global palette to fall back to
+        if (palette.size() < 256) {
+            logging::funcprint("no palette for mip {}\n", name);
+            return tex;
+        }
+
         convert_paletted_to_32_bit(pixels, tex.pixels, palette);
     }
 
-- 
2.43.0


From cb0c2fc1221a78dda9be2142339552d1abeb834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 28/39] fix: damaged portal files, mip texture offsets and
 unvised .bsp files crashed the tools

---
 common/bspfile.cc         |  3 ++-
 common/bspfile_generic.cc | 14 +++++++-------
 common/prtfile.cc         | 31 +++++++++++++++++++------------
 vis/vis.cc                | 13 +++++++++++++
 4 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 870dd39..2fe2891 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1742,7 +1742,8 @@ const bspversion_t bspver_qbism{Q2_QBISMIDENT, Q2_BSPVERSION, "qbism", "Quake II
 static bool BSPVersionSupported(int32_t ident, std::optional<int32_t> version, const bspversion_t **out_version)
 {
     for (const bspversion_t *bspver : bspversions) {
-        if (bspver->ident == ident && bspver->version == version) {
+        // bspver_generic only exists in memory
+        if (bspver != &bspver_generic && bspver->ident == ident && bspver->version == version) {
             if (bspver->game->id == GAME_HEXEN_II) {
                 // HACK: don't detect as Hexen II here, it's done later (isHexen2).
                 // Since the Hexen II bspversion_t's have the same ident/version as Quake
diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 89c2a1b..fc93617 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -177,15 +177,15 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
             continue;
         }
 
-        // move to miptex position (technically required
-        // because there might be dummy data between the offsets
-        // and the mip textures themselves...)
-        stream.seekg(lump.fileofs + offset);
+        if (offset < lump.filelen) {
+            // move to miptex position (technically required
+            // because there might be dummy data between the offsets
+            // and the mip textures themselves...)
+            stream.seekg(lump.fileofs + offset);
 
-        // calculate the length of the data used for the individual miptex.
-        auto next_offset = boundaries.upper_bound(offset);
+            // calculate the length of the data used for the individual miptex.
+            auto next_offset = boundaries.upper_bound(offset);
 
-        if (offset < lump.filelen) {
             tex.stream_read(stream, std::min(*next_offset, lump.filelen) - offset);
         }
     }
diff --git a/common/prtfile.cc b/common/prtfile.cc
index 759049c..e31123a 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -31,6 +31,7 @@ constexpr const char *PORTALFILE2 = "PRT2";
 constexpr const char *PORTALFILEAM = "PRT1-AM";
 
 constexpr size_t PRT_MAX_WINDING = 64;
+constexpr int PRT_MAX_LEAFS = 1 << 24;
 
 prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
 {
@@ -51,7 +52,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     if (magic == PORTALFILE) {
         f >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
 
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -66,7 +67,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs_real >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else if (magic == PORTALFILEAM) {
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -74,38 +75,44 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs >> numportals >> result.portalleafs_real;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else {
         FError("unknown header: {}\n", magic);
     }
 
+    if (result.portalleafs < 0 || result.portalleafs > PRT_MAX_LEAFS || result.portalleafs_real < 0 ||
+        result.portalleafs_real > PRT_MAX_LEAFS || numportals < 0)
+        FError("bad counts in portal file header\n");
+
     for (int i = 0; i < numportals; i++) {
         prtfile_portal_t p;
         int numpoints;
 
         f >> numpoints >> p.leafnums[0] >> p.leafnums[1];
-        if (f.bad())
+        if (!f)
             FError("reading portal {}", i);
+        if (numpoints < 3)
+            FError("portal {} has too few points", i);
         if (numpoints > PRT_MAX_WINDING)
             FError("portal {} has too many points", i);
-        if ((unsigned)p.leafnums[0] > (unsigned)result.portalleafs ||
-            (unsigned)p.leafnums[1] > (unsigned)result.portalleafs)
+        if ((unsigned)p.leafnums[0] >= (unsigned)result.portalleafs ||
+            (unsigned)p.leafnums[1] >= (unsigned)result.portalleafs)
             FError("out of bounds leaf in portal {}", i);
 
         auto &w = p.winding;
         w.resize(numpoints);
 
         for (int j = 0; j < numpoints; j++) {
-            while (!f.bad() && f.get() != '(')
+            while (f && f.get() != '(')
                 ;
 
             f >> w[j][0] >> w[j][1] >> w[j][2];
 
-            while (!f.bad() && f.get() != ')')
+            while (f && f.get() != ')')
                 ;
 
-            if (f.bad())
+            if (!f)
                 FError("reading portal {}", i);
         }
 
@@ -138,7 +145,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
             while (1) {
                 int leafnum;
                 f >> leafnum;
-                if (f.bad() || f.eof())
+                if (!f)
                     break;
                 if (leafnum < 0)
                     break;
@@ -146,7 +153,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
                     FError("Invalid leaf number in cluster map ({} >= {})", leafnum, result.portalleafs_real);
                 result.dleafinfos[leafnum + 1].cluster = i;
             }
-            if (f.bad() || f.eof())
+            if (!f)
                 break;
         }
         if (i < result.portalleafs)
@@ -157,7 +164,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
             f >> clusternum;
-            if (f.bad() || f.eof()) {
+            if (!f) {
                 Error("Unexpected end of cluster map\n");
             }
             if (clusternum < 0 || clusternum >= result.portalleafs) {
diff --git a/vis/vis.cc b/vis/vis.cc
index e657558..a707452 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -585,6 +585,16 @@ static void LoadPortals(const fs::path &name, mbsp_t *bsp)
 {
     const prtfile_t prtfile = LoadPrtFile(name, bsp->loadversion);
 
+    if (!prtfile.portalleafs || (bsp->loadversion->game->id != GAME_QUAKE_II && !prtfile.portalleafs_real)) {
+        FError("{} has no leafs", name);
+    }
+
+    // the cluster map has an entry for leaf 0 (the shared solid leaf) too
+    if (static_cast<size_t>(prtfile.portalleafs) > bsp->dleafs.size() ||
+        prtfile.dleafinfos.size() > bsp->dleafs.size()) {
+        FError("{} has more leafs than the bsp", name);
+    }
+
     portalleafs = prtfile.portalleafs;
     portalleafs_real = prtfile.portalleafs_real;
 
@@ -746,6 +756,9 @@ int vis_main(int argc, const char **argv)
         }
 
         portalleafs = bsp.dvis.bit_offsets.size();
+        if (!portalleafs) {
+            FError("-phsonly needs a BSP which already has visibility data");
+        }
         leafbytes = ((portalleafs + 63) & ~63) >> 3;
         leaflongs = leafbytes / sizeof(long);
 
-- 
2.43.0


From 212d1530b012a121fa51df028b254e7a4f704a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:40 +0000
Subject: [PATCH 29/39] fix: qbsp copied an uninitialised bool with every brush
 side

---
 include/qbsp/map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qbsp/map.hh b/include/qbsp/map.hh
index 36b4630..b816038 100644
--- a/include/qbsp/map.hh
+++ b/include/qbsp/map.hh
@@ -68,7 +68,7 @@ struct mapface_t
     // with no transformations; this is for conversions only.
     std::optional<extended_texinfo_t> raw_info;
 
-    bool visible; // can any part of this side be seen from non-void parts of the level?
+    bool visible = false; // can any part of this side be seen from non-void parts of the level?
                   // non-visible means we can discard the brush side
                   // (avoiding generating a BSP spit, so expanding it outwards)
 
-- 
2.43.0


From f07ea53639b8f9b49e3cb4170c58a056199c7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:18 +0000
Subject: [PATCH 30/39] fix: qbsp -convert wrote shifts off by 2^32 for
 negative texture shifts

---
 qbsp/map.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 44e5e11..51da55a 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -1003,11 +1003,19 @@ qvec2f normalizeShift(const std::optional<img::texture_meta> &texture, const qve
         return in; // can't do anything without knowing the texture size.
     }
 
-    int fullWidthOffsets = static_cast<int>(in[0]) / texture->width;
-    int fullHeightOffsets = static_cast<int>(in[1]) / texture->height;
+    // the texture size is unsigned, and would make the negative shifts wrap around
+    const int width = static_cast<int>(texture->width);
+    const int height = static_cast<int>(texture->height);
 
-    qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * texture->width),
-        in[1] - static_cast<float>(fullHeightOffsets * texture->height));
+    if (!width || !height) {
+        return in;
+    }
+
+    int fullWidthOffsets = static_cast<int>(in[0]) / width;
+    int fullHeightOffsets = static_cast<int>(in[1]) / height;
+
+    qvec2f result(
+        in[0] - static_cast<float>(fullWidthOffsets * width), in[1] - static_cast<float>(fullHeightOffsets * height));
     return result;
 }
 
-- 
2.43.0


From eb8b36b75b11f6ab4c3ca1f46de5a9edf995d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:11 +0000
Subject: [PATCH 31/39] fix: light repeated a luxel in lightmaps 22, 23, 29,
 37... luxels wide, where s / width * width rounds below s

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 6d5c83e..fc33776 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -408,8 +408,8 @@ static void WriteSingleLightmap(const mbsp_t *bsp, const mface_t *face, const li
 
     for (int t = 0; t < output_height; t++) {
         for (int s = 0; s < output_width; s++) {
-            const int input_sample_s = (s / (float)output_width) * actual_width;
-            const int input_sample_t = (t / (float)output_height) * actual_height;
+            const int input_sample_s = s * actual_width / output_width;
+            const int input_sample_t = t * actual_height / output_height;
             const int sampleindex = (input_sample_t * actual_width) + input_sample_s;
 
             if (lit || out) {
-- 
2.43.0


From fbcaec85552066b8d78b55391dd597219c5df192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:11 +0000
Subject: [PATCH 32/39] fix: light copied uninitialised bools with every
 surface that has no lightmap

---
 include/light/light.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/light/light.hh b/include/light/light.hh
index b5a6728..a68ad85 100644
--- a/include/light/light.hh
+++ b/include/light/light.hh
@@ -99,10 +99,10 @@ struct lightsurf_t
     float minlight, maxlight, lightcolorscale = 1.0;
     float surflight_minlight_scale = 1.0;
     qvec3f minlight_color;
-    bool nodirt, minlightMottle;
-    bool curved; /*normals are interpolated for smooth lighting*/
+    bool nodirt = false, minlightMottle = false;
+    bool curved = false; /*normals are interpolated for smooth lighting*/
     /* for lit water. receive light from either front or back. */
-    bool twosided;
+    bool twosided = false;
     int32_t object_channel_mask;
 
     qplane3f plane;
-- 
2.43.0


From 9e638da63e4ddc0517af5d274a562f18e31088fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:06 +0000
Subject: [PATCH 33/39] fix: the "mangle" of a "_sun" entity was used as a
 direction instead of angles

---
 light/entities.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/entities.cc b/light/entities.cc
index 66201da..3381cb2 100644
--- a/light/entities.cc
+++ b/light/entities.cc
@@ -473,8 +473,8 @@ static void SetupSuns(const settings::worldspawn_keys &cfg)
                 qvec3f target_pos;
                 entity->targetent->get_vector("origin", target_pos);
                 sunvec = target_pos - entity->origin.value();
-            } else if (qv::length2(entity->mangle.value()) > 0) {
-                sunvec = entity->mangle.value();
+            } else if (entity->mangle.is_changed()) {
+                sunvec = qv::vec_from_mangle(entity->mangle.value());
             } else { // Use { 0, 0, 0 } as sun target...
                 logging::print("WARNING: sun missing target, entity origin used.\n");
                 sunvec = -entity->origin.value();
-- 
2.43.0


From 640cdf712986a90667f5cffa145b41ccffa750be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:30 +0000
Subject: [PATCH 34/39] fix: light kept the lightmap offset and styles of an
 earlier run on faces that have extended lightmaps and are dark now

---
 light/light.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index a971fcf..84c2131 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -616,20 +616,20 @@ static void CreateLightmapSurfaces(mbsp_t *bsp)
             // if litonly is set we need to preserve the existing lightofs
 
             /* some surfaces don't need lightmaps */
+            face->lightofs = -1;
+            for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
+                face->styles[i] = INVALID_LIGHTSTYLE_OLD;
+            }
+
             if (facesup) {
                 facesup->lightofs = -1;
                 for (size_t i = 0; i < MAXLIGHTMAPSSUP; i++) {
                     facesup->styles[i] = INVALID_LIGHTSTYLE;
                 }
-            } else {
-                face->lightofs = -1;
-                for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
-                    face->styles[i] = INVALID_LIGHTSTYLE_OLD;
-                }
+            }
 
-                if (facesup_decoupled) {
-                    facesup_decoupled->offset = -1;
-                }
+            if (facesup_decoupled) {
+                facesup_decoupled->offset = -1;
             }
         }
 
-- 
2.43.0


From 57f7f9ab7330306317305bf7cee79617bf2304f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:45 +0000
Subject: [PATCH 35/39] fix: the plain lightmap of a face with another luxel
 scale was overwritten by the scaled one

---
 light/write.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index fc33776..d273705 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -789,7 +789,7 @@ void SaveLightmapSurface(const mbsp_t *bsp, mface_t *face, facesup_t *facesup,
     bspx_decoupled_lm_perface *facesup_decoupled, lightsurf_t *lightsurf, const faceextents_t &extents,
     const faceextents_t &output_extents,
     std::vector<uint8_t> &filebase, std::vector<uint8_t> &lit_filebase, std::vector<uint8_t> &lux_filebase,
-    lightmap_intermediate_data_t &id)
+    lightmap_intermediate_data_t &id, int dest_lightofs)
 {
     const int output_width = output_extents.width();
     const int output_height = output_extents.height();
@@ -798,7 +798,7 @@ void SaveLightmapSurface(const mbsp_t *bsp, mface_t *face, facesup_t *facesup,
         return; // no styles to write
     }
 
-    Q_assert(id.lightofs >= 0);
+    Q_assert(dest_lightofs >= 0);
 
     /* update face info (either core data or supplementary stuff) */
     if (facesup) {
@@ -833,15 +833,15 @@ void SaveLightmapSurface(const mbsp_t *bsp, mface_t *face, facesup_t *facesup,
     uint8_t *out = nullptr, *lit = nullptr, *lux = nullptr;
 
     if (!filebase.empty()) {
-        out = filebase.data() + id.lightofs;
+        out = filebase.data() + dest_lightofs;
     }
 
     if (!lit_filebase.empty()) {
-        lit = lit_filebase.data() + (id.lightofs * 3);
+        lit = lit_filebase.data() + (dest_lightofs * 3);
     }
 
     if (!lux_filebase.empty()) {
-        lux = lux_filebase.data() + (id.lightofs * 3);
+        lux = lux_filebase.data() + (dest_lightofs * 3);
     }
 
     int lightofs;
@@ -1053,23 +1053,23 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
 
             if (!facesup_decoupled_global.empty()) {
                 SaveLightmapSurface(
-                    bsp, f, nullptr, &facesup_decoupled_global[i], &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                    bsp, f, nullptr, &facesup_decoupled_global[i], &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].lightofs);
             } else if (faces_sup.empty()) {
-                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].lightofs);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                 if (faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                     f->lightofs = faces_sup[i].lightofs;
                 } else {
                     f->lightofs = -1;
                 }
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].lightofs);
                 for (int j = 0; j < MAXLIGHTMAPS; j++) {
                     f->styles[j] =
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
                 }
             } else {
-                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].vanilla_lightofs);
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].lightofs);
             }
         });
     }
-- 
2.43.0


From e3596b60980c7c824f54375dcf2dc364bfc10109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:45 +0000
Subject: [PATCH 36/39] fix: faces whose lightmap is shared by the extension
 lumps got no lightmap offset

---
 light/write.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index d273705..c27f3d4 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1057,12 +1057,12 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             } else if (faces_sup.empty()) {
                 SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].lightofs);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].lightofs);
                 if (faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                     f->lightofs = faces_sup[i].lightofs;
                 } else {
                     f->lightofs = -1;
                 }
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i], intermediate_data[i].lightofs);
                 for (int j = 0; j < MAXLIGHTMAPS; j++) {
                     f->styles[j] =
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
-- 
2.43.0


From b24de007afb60802027d0518f18a93d07829ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:45 +0000
Subject: [PATCH 37/39] fix: -world_units_per_luxel left the grey lightmaps
 black

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index c27f3d4..983393b 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -514,8 +514,8 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
                 }
 
                 if (out) {
-                    // FIXME: implement
-                    *out++ = 0;
+                    // same as in WriteSingleLightmap
+                    *out++ = std::clamp(std::max({color[0], color[1], color[2]}), 0.0f, 255.0f);
                 }
             }
 
-- 
2.43.0


From 958e256965514ae3fc06576c03c5133bb4e740e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:51 +0000
Subject: [PATCH 38/39] fix: LMSHIFT announced coarser lightmaps than light
 writes

---
 light/light.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index 84c2131..b4c1f92 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -757,7 +757,12 @@ static void LightWorld(bspdata_t *bspdata, const fs::path &source, bool forcedsc
 
         if (lmshift_lump != bspdata->bspx.entries.end()) {
             for (int i = 0; i < bsp.dfaces.size(); i++) {
-                faces_sup[i].lmscale = nth_bit(reinterpret_cast<const char *>(lmshift_lump->second.data())[i]);
+                // the lightmaps are never coarser than the map's own scale; the lump has to say what is written
+                uint8_t &shift = lmshift_lump->second[i];
+                while (shift > 0 && std::ldexp(1.0f, shift) > modelinfo.at(0)->lightmapscale) {
+                    shift--;
+                }
+                faces_sup[i].lmscale = nth_bit(static_cast<int>(shift));
             }
         } else {
             for (int i = 0; i < bsp.dfaces.size(); i++) {
-- 
2.43.0


From 330b74f4f48953fd976d06d6d1351a54d7e65bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:05 +0000
Subject: [PATCH 39/39] fix: .lit2 files had the sample count of the earlier
 lighting and read past the data

---
 light/write.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 983393b..8205a90 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -57,7 +57,7 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
 
     header.v1.version = version;
     header.v2.numsurfs = bsp->dfaces.size();
-    header.v2.lmsamples = bsp->dlightdata.size();
+    header.v2.lmsamples = lit_filebase.size() / 3;
 
     logging::print("Writing {}\n", litname);
     std::ofstream litfile(litname, std::ios_base::out | std::ios_base::binary);
@@ -78,8 +78,9 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
                 j++;
             litfile <= (uint8_t)j;
         }
-        litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
-        litfile.write((const char *)lux_filebase.data(), bsp->dlightdata.size() * 3);
+        // the bsp doesn't have this run's light data
+        litfile.write((const char *)lit_filebase.data(), lit_filebase.size());
+        litfile.write((const char *)lux_filebase.data(), lux_filebase.size());
     } else
         litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
 }
@@ -1035,7 +1036,7 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             lit_filebase.resize(lightmap_size * 3);
         }
 
-        if (light_options.write_luxfile) {
+        if (light_options.write_luxfile || light_options.write_litfile == lightfile::lit2) {
             lux_filebase.resize(lightmap_size * 3);
         }
 
-- 
2.43.0

