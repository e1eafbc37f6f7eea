// P29: the state of a rendering context against a stack model, and drawing against a context set up from that model.
struct P29Style { BLVar value; BLMatrix2D eff; BLContextHints hints; P29Style() {} P29Style(const P29Style& o) : eff(o.eff), hints(o.hints) { value.assign(o.value); } P29Style& operator=(const P29Style& o) { value.assign(o.value); eff = o.eff; hints = o.hints; return *this; } };
struct P29Clip { BLMatrix2D m; BLRect d; BLRectI i; bool integral; };
struct P29State { BLContextHints hints; BLCompOp op; BLFillRule rule; P29Style st[2]; double ga, sa[2]; BLStrokeOptions so; BLApproximationOptions ao; BLMatrix2D user, meta, fin; std::vector<P29Clip> clips; };
struct P29Saved { P29State s; bool cookie; BLContextCookie ck; };
static bool p29_same(const BLMatrix2D& a, const BLMatrix2D& b, double tol) { const double* p = &a.m00; const double* q = &b.m00; double mx = 1e-300; for (int i = 0; i < 4; i++) mx = std::max(mx, std::max(fabs(p[i]), fabs(q[i]))); double mt = std::max(std::max(fabs(p[4]), fabs(p[5])), std::max(fabs(q[4]), fabs(q[5]))); for (int i = 0; i < 6; i++) { if (p[i] == q[i] || (std::isnan(p[i]) && std::isnan(q[i]))) continue; if (!(fabs(p[i] - q[i]) <= tol * (i < 4 ? mx : std::max(mx, mt)))) return false; } return true; }
static std::string p29_m(const BLMatrix2D& m) { return scene::Gen::fmt("(%.9g,%.9g,%.9g,%.9g,%.9g,%.9g)", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21); }

static void p29_getters(BLContext& c, P29State& m, const std::vector<P29Saved>& stack, const char* op, const std::string& log) {
#define G(what, cond) VH_CHECK(cond, what, "%s: after %s the context's " what " isn't what was set", log.c_str(), op)
  G("composition operator", c.comp_op() == m.op); G("fill rule", c.fill_rule() == m.rule); G("global alpha", c.global_alpha() == m.ga); G("fill alpha", c.fill_alpha() == m.sa[0]); G("stroke alpha", c.stroke_alpha() == m.sa[1]); G("hints", memcmp(&c.hints(), &m.hints, sizeof m.hints) == 0);
  const BLStrokeOptions& so = c.stroke_options(); G("stroke width", c.stroke_width() == m.so.width && so.width == m.so.width); G("miter limit", c.stroke_miter_limit() == m.so.miter_limit && so.miter_limit == m.so.miter_limit); G("stroke join", c.stroke_join() == BLStrokeJoin(m.so.join) && so.join == m.so.join); G("stroke start cap", c.stroke_start_cap() == BLStrokeCap(m.so.start_cap) && so.start_cap == m.so.start_cap); G("stroke end cap", c.stroke_end_cap() == BLStrokeCap(m.so.end_cap) && so.end_cap == m.so.end_cap);
  G("dash offset", c.stroke_dash_offset() == m.so.dash_offset); G("dash array", c.stroke_dash_array().equals(m.so.dash_array)); G("stroke transform order", c.stroke_transform_order() == BLStrokeTransformOrder(m.so.transform_order)); const BLApproximationOptions& ao = c.approximation_options(); G("flatten mode", ao.flatten_mode == m.ao.flatten_mode); G("flatten tolerance", ao.flatten_tolerance == m.ao.flatten_tolerance); G("offset mode", ao.offset_mode == m.ao.offset_mode); G("offset parameter", ao.offset_parameter == m.ao.offset_parameter); G("simplify tolerance", ao.simplify_tolerance == m.ao.simplify_tolerance);
  G("saved state count", c.saved_state_count() == stack.size());
  VH_CHECK(p29_same(c.user_transform(), m.user, 1e-9), "user transform", "%s: after %s the user transform is %s, not %s", log.c_str(), op, p29_m(c.user_transform()).c_str(), p29_m(m.user).c_str()); VH_CHECK(p29_same(c.meta_transform(), m.meta, 1e-9), "meta transform", "%s: after %s the meta transform is %s, not %s", log.c_str(), op, p29_m(c.meta_transform()).c_str(), p29_m(m.meta).c_str()); BLMatrix2D f = p26_mul(m.user, m.meta); VH_CHECK(p29_same(c.final_transform(), f, 1e-9), "final transform", "%s: after %s the final transform is %s, not %s", log.c_str(), op, p29_m(c.final_transform()).c_str(), p29_m(f).c_str());
  m.user = c.user_transform(); m.meta = c.meta_transform(); m.fin = c.final_transform();
  for (int s = 0; s < 2; s++) { BLVar v, t; BLContextStyleSlot sl = BLContextStyleSlot(s); VH_OK(c.get_style(sl, v), "get-style"); const P29Style& e = m.st[s]; VH_CHECK(v.type() == e.value.type() && c.style_type(sl) == e.value.type() && v.equals(e.value), "style", "%s: after %s the %s style has type %u (%u), not %u, or another value", log.c_str(), op, s ? "stroke" : "fill", unsigned(v.type()), unsigned(c.style_type(sl)), unsigned(e.value.type()));
    VH_OK(c.get_transformed_style(sl, t), "get-transformed-style"); BLMatrix2D got, want; bool has = true; if (v.type() == BL_OBJECT_TYPE_GRADIENT) { got = t.as<BLGradient>().transform(); want = p26_mul(e.value.as<BLGradient>().transform(), e.eff); } else if (v.type() == BL_OBJECT_TYPE_PATTERN) { got = t.as<BLPattern>().transform(); want = p26_mul(e.value.as<BLPattern>().transform(), e.eff); } else has = false; if (has) VH_CHECK(p29_same(got, want, 1e-9), "style transform", "%s: after %s the %s style's transform is %s, not %s", log.c_str(), op, s ? "stroke" : "fill", p29_m(got).c_str(), p29_m(want).c_str()); }
  evals(); 
#undef G
}

// Brings a new context to a state.
static void p29_apply(BLContext& c, const P29State& m) {
  BLMatrix2D id(1, 0, 0, 1, 0, 0); for (int s = 0; s < 2; s++) { VH_OK(c.set_hints(m.st[s].hints), "p-hints"); VH_OK(c.set_transform(m.st[s].eff), "p-transform"); VH_OK(c.set_style(BLContextStyleSlot(s), m.st[s].value), "p-style"); VH_OK(c.set_transform(id), "p-transform"); }
  for (auto& k : m.clips) { VH_OK(c.set_transform(k.m), "p-transform"); VH_OK(k.integral ? c.clip_to_rect(k.i) : c.clip_to_rect(k.d), "p-clip"); } VH_OK(c.set_hints(m.hints), "p-hints"); VH_OK(c.set_comp_op(m.op), "p-op"); VH_OK(c.set_fill_rule(m.rule), "p-rule"); VH_OK(c.set_fill_alpha(m.sa[0]), "p-alpha"); VH_OK(c.set_stroke_alpha(m.sa[1]), "p-alpha"); VH_OK(c.set_global_alpha(m.ga), "p-alpha");
  VH_OK(c.set_stroke_options(m.so), "p-stroke"); VH_OK(c.set_approximation_options(m.ao), "p-approx"); VH_OK(c.set_transform(m.meta), "p-meta"); VH_OK(c.user_to_meta(), "p-meta"); VH_OK(c.set_transform(m.user), "p-user");
}

static void p29_draw(BLContext& c, uint64_t seed, int W, int H, const std::vector<BLFont>& fonts, const BLImage& im, BLVar& var) {
  Rng r(seed); for (int i = int(r.range(1, 5)); i--;) { double x = r.dbl(-5, W), y = r.dbl(-5, H), w = r.dbl(1, W), h = r.dbl(1, H); BLPath p; p.move_to(x, y); p.line_to(x + w, y + h / 2); p.quad_to(x, y + h, x + w / 2, y - 5); p.cubic_to(x - 20, y, x + 30, y + 40, x + w, y); if (r.chance(1, 2)) p.close(); BLResult e = BL_SUCCESS; BLRectI ri(int(x), int(y), int(w) + 1, int(h) + 1);
    switch (r.below(14)) { case 0: e = c.fill_all(); break; case 1: e = c.fill_rect(ri); break; case 2: e = c.fill_rect(BLRect(x, y, w, h)); break; case 3: case 4: e = c.fill_path(p); break; case 5: e = c.stroke_path(p); break; case 6: e = c.stroke_rect(BLRect(x, y, w, h)); break; case 7: if (!fonts.empty()) e = c.fill_utf8_text(BLPoint(x, y + 10), fonts[0], "Ab1"); break; case 8: if (!fonts.empty()) e = c.stroke_utf8_text(BLPoint(x, y + 10), fonts[0], "c2"); break; case 9: e = c.blit_image(BLPointI(int(x), int(y)), im); break; case 10: e = c.blit_image(BLRect(x, y, w, h), im); break; case 11: e = c.fill_path(p, var); break; case 12: e = c.stroke_line(x, y, x + w, y + h); break; default: e = r.chance(1, 3) ? c.clear_rect(BLRect(x, y, w / 4, h / 4)) : c.stroke_path(p, BLRgba32(0x80FF3010)); } (void)e; }
}

static void case_p29(Rng& r) {
  int W = 1 + int(r.below(60)), H = 1 + int(r.below(45)); BLFormat f = rnd_format(r); Ext t, u; t.create(r, W, H, f); u.create(r, W, H, f); fill_random(r, t); t.snapshot(); Ext im; im.create(r, 1 + int(r.below(12)), 1 + int(r.below(9)), rnd_format(r)); fill_random(r, im); im.snapshot();
  std::vector<BLFont> fonts; auto& fc = faces(); if (!fc.empty()) { BLFont x; if (x.create_from_face(fc[r.below(fc.size())], float(r.dbl(5, 20))) == BL_SUCCESS) fonts.push_back(x); }
  BLContextCreateInfo ci{}; ci.thread_count = r.chance(1, 4) ? 1 + unsigned(r.below(2)) : 0; uint32_t limit = 4096; if (r.chance(1, 6)) ci.saved_state_limit = limit = 1 + uint32_t(r.below(5)); BLContext c; VH_OK(c.begin(t.img, ci), "begin"); BLImage oi(1, 1, BL_FORMAT_PRGB32); BLContext other(oi); BLContextCookie foreign; VH_OK(other.save(foreign), "save");
  P29State m; BLMatrix2D id(1, 0, 0, 1, 0, 0); m.hints.reset(); m.op = BL_COMP_OP_SRC_OVER; m.rule = BL_FILL_RULE_NON_ZERO; m.ga = m.sa[0] = m.sa[1] = 1; m.ao = c.approximation_options(); m.user = m.meta = m.fin = id; m.hints = c.hints(); for (auto& s : m.st) { s.value = BLRgba32(0xFF000000); s.eff = id; s.hints = m.hints; } BLApproximationOptions dflt = bl_default_approximation_options; VH_CHECK(memcmp(&dflt, &m.ao, sizeof dflt) == 0, "defaults", "A new context doesn't have default approximation options");
  std::vector<P29Saved> stack; std::vector<BLContextCookie> dead; std::string log = scene::Gen::fmt("%dx%d format %d threads %u:", W, H, int(f), ci.thread_count); char op[200]; p29_getters(c, m, stack, "begin", log);
  auto grad = [&]() { BLGradient g(BLLinearGradientValues(r.dbl(0, W), r.dbl(0, H), r.dbl(0, W), r.dbl(0, H))); if (r.chance(1, 3)) g = BLGradient(BLRadialGradientValues(r.dbl(0, W), r.dbl(0, H), r.dbl(0, W), r.dbl(0, H), r.dbl(5, 40))); else if (r.chance(1, 3)) g = BLGradient(BLConicGradientValues(r.dbl(0, W), r.dbl(0, H), r.dbl(0, 6))); for (int i = int(r.below(4)); i--;) g.add_stop(r.unit(), BLRgba32(rnd_prgb(r))); if (r.chance(1, 2)) g.translate(r.dbl(-9, 9), r.dbl(-9, 9)); if (r.chance(1, 3)) g.scale(r.dbl(0.3, 3)); g.set_extend_mode(BLExtendMode(r.below(3))); return g; };
  auto rect = [&]() { return r.chance(1, 2) ? BLRect(double(r.range(-3, W)), double(r.range(-3, H)), double(r.range(0, W + 4)), double(r.range(0, H + 4))) : BLRect(r.dbl(-3, W), r.dbl(-3, H), r.dbl(0, W + 4), r.dbl(0, H + 4)); };
  auto alpha = [&]() { return r.chance(1, 3) ? double(r.below(2)) : r.chance(1, 6) ? r.dbl(-1, 3) : r.unit(); }; int steps = 3 + int(r.skew(60)), probes = 0; BLVar var; var = r.chance(1, 2) ? BLVar(BLRgba32(rnd_prgb(r))) : BLVar(grad());
  for (int i = 0; i < steps; i++) {
    int k = int(r.below(27)); BLResult e = BL_SUCCESS; bool fails = false; op[0] = 0;
#define OP(...) snprintf(op, sizeof op, __VA_ARGS__)
    switch (k) {
      case 0: case 1: { bool ck = r.chance(1, 2); BLContextCookie q; e = ck ? c.save(q) : c.save(); OP("save%s", ck ? " with a cookie" : ""); if (stack.size() >= limit) { VH_CHECK(e == BL_ERROR_TOO_MANY_SAVED_STATES, "save-limit", "%s %s over the limit of %u returned %u", log.c_str(), op, limit, e); count("saves over the limit"); fails = true; } else { stack.push_back(P29Saved{m, ck, q}); count("saves"); } break; }
      case 2: case 3: { OP("restore"); e = c.restore(); if (stack.empty()) { VH_CHECK(e == BL_ERROR_NO_STATES_TO_RESTORE, "restore-nothing", "%s restore without a saved state returned %u", log.c_str(), e); fails = true; } else if (stack.back().cookie) { VH_CHECK(e == BL_ERROR_NO_MATCHING_COOKIE, "restore-cookie", "%s restore of a state saved with a cookie returned %u", log.c_str(), e); fails = true; } else { m = stack.back().s; stack.pop_back(); count("restores"); } break; }
      case 4: { int w = int(r.below(4)); if (w == 0) { OP("restore by the cookie of another context"); e = c.restore(foreign); fails = true; } else if (w == 1 && !dead.empty()) { OP("restore by an old cookie"); e = c.restore(dead[r.below(dead.size())]); fails = true; } else { std::vector<size_t> q; for (size_t j = 0; j < stack.size(); j++) if (stack[j].cookie) q.push_back(j); if (q.empty()) continue; size_t j = q[r.below(q.size())]; OP("restore by cookie of %zu states", stack.size() - j); e = c.restore(stack[j].ck); m = stack[j].s; for (size_t l = j; l < stack.size(); l++) if (stack[l].cookie) dead.push_back(stack[l].ck); if (stack.size() - j > 1) count("restores of several states"); stack.resize(j); count("restores"); } if (fails) VH_CHECK(e == (stack.empty() ? BL_ERROR_NO_STATES_TO_RESTORE : BL_ERROR_NO_MATCHING_COOKIE), "restore-cookie", "%s %s returned %u", log.c_str(), op, e); break; }
      case 5: case 6: { double a = r.dbl(-9, 9), b = r.dbl(-9, 9); BLMatrix2D q = id; int w = int(r.below(12)); switch (w) { case 0: e = c.translate(a, b); q = BLMatrix2D(1, 0, 0, 1, a, b); m.user = p26_mul(q, m.user); break; case 1: { a = floor(a); b = floor(b); e = c.translate(a, b); q = BLMatrix2D(1, 0, 0, 1, a, b); m.user = p26_mul(q, m.user); break; } case 2: a = exp(a / 8); b = exp(b / 8); e = c.scale(a, b); q = BLMatrix2D(a, 0, 0, b, 0, 0); m.user = p26_mul(q, m.user); break; case 3: e = c.rotate(a); q = BLMatrix2D(cos(a), sin(a), -sin(a), cos(a), 0, 0); m.user = p26_mul(q, m.user); break; case 4: a /= 20; b /= 20; e = c.skew(a, b); q = BLMatrix2D(1, tan(b), tan(a), 1, 0, 0); m.user = p26_mul(q, m.user); break;
          case 5: e = c.post_translate(a, b); q = BLMatrix2D(1, 0, 0, 1, a, b); m.user = p26_mul(m.user, q); break; case 6: a = exp(a / 8); b = exp(b / 8); e = c.post_scale(a, b); q = BLMatrix2D(a, 0, 0, b, 0, 0); m.user = p26_mul(m.user, q); break; case 7: e = c.post_rotate(a); q = BLMatrix2D(cos(a), sin(a), -sin(a), cos(a), 0, 0); m.user = p26_mul(m.user, q); break; case 8: q = BLMatrix2D(r.dbl(-1, 1), r.dbl(-1, 1), r.dbl(-1, 1), r.dbl(-1, 1), a, b); e = c.apply_transform(q); m.user = p26_mul(q, m.user); break; case 9: q = BLMatrix2D(1, 0, 0, 1, floor(a), floor(b)); e = c.set_transform(q); m.user = q; break; default: e = c.reset_transform(); m.user = id; } OP("transform %d", w); count("transforms"); break; }
      case 7: { OP("user to meta"); e = c.user_to_meta(); m.meta = m.fin; m.user = id; count("meta transforms"); break; }
      case 8: case 9: case 10: { int s = int(r.below(2)), w = int(r.below(6)), tm = int(r.below(4)); P29Style& q = m.st[s]; BLContextStyleSlot sl = BLContextStyleSlot(s); OP("set %s style %d mode %d", s ? "stroke" : "fill", w, tm); q.hints = m.hints; q.eff = tm < 2 ? m.fin : tm == 2 ? m.meta : id; static const BLContextStyleTransformMode TM[4] = {BL_CONTEXT_STYLE_TRANSFORM_MODE_USER, BL_CONTEXT_STYLE_TRANSFORM_MODE_USER, BL_CONTEXT_STYLE_TRANSFORM_MODE_META, BL_CONTEXT_STYLE_TRANSFORM_MODE_NONE}; uint32_t p = uint32_t(r.u64()); if (r.chance(1, 3)) p |= 0xFF000000u;
          switch (w) { case 0: e = c.set_style(sl, BLRgba32(p)); q.value = BLRgba32(p); break; case 1: { BLRgba64 v(r.u64()); e = c.set_style(sl, v); q.value = v; break; } case 2: { BLRgba v(float(r.dbl(-0.1, 1.1)), float(r.unit()), float(r.unit()), float(r.unit())); if (r.chance(1, 8)) v.g = NAN; e = c.set_style(sl, v); if (std::isnan(v.g)) q.value.reset(); else q.value = BLRgba(std::min(1.f, std::max(0.f, v.r)), v.g, v.b, v.a); break; }
            case 3: { BLGradient g = grad(); BLVar gv(g); e = tm == 0 ? (r.chance(1, 2) ? c.set_style(sl, g) : c.set_style(sl, gv)) : c.set_style(sl, g, TM[tm]); q.value = g; break; } case 4: { BLPattern pt(im.img, BLExtendMode(r.below(3))); if (r.chance(1, 2)) pt.translate(r.dbl(-9, 9), r.dbl(-9, 9)); if (r.chance(1, 3)) pt.scale(r.dbl(0.5, 4)); BLVar pv(pt); e = tm == 0 ? (r.chance(1, 2) ? c.set_style(sl, pt) : c.set_style(sl, pv)) : c.set_style(sl, pt, TM[tm]); q.value = pt; break; } default: e = r.chance(1, 2) ? c.disable_style(sl) : c.set_style(sl, BLVar()); q.value.reset(); } count("styles"); break; }
      case 11: { bool wa = r.chance(1, 2); OP("swap styles %d", wa); e = c.swap_styles(wa ? BL_CONTEXT_STYLE_SWAP_MODE_STYLES_WITH_ALPHA : BL_CONTEXT_STYLE_SWAP_MODE_STYLES); std::swap(m.st[0], m.st[1]); if (wa) std::swap(m.sa[0], m.sa[1]); count("style swaps"); break; }
      case 12: { double a = alpha(); int w = int(r.below(3)); OP("alpha %d = %g", w, a); e = w == 2 ? c.set_global_alpha(a) : w ? c.set_stroke_alpha(a) : c.set_fill_alpha(a); a = std::min(1.0, std::max(0.0, a)); (w == 2 ? m.ga : m.sa[w]) = a; break; }
      case 13: { m.op = r.chance(1, 2) ? BLCompOp(r.below(2)) : m.op; OP("operator %d", int(m.op)); e = c.set_comp_op(m.op); break; }
      case 14: { m.rule = BLFillRule(r.below(2)); OP("fill rule %d", int(m.rule)); e = c.set_fill_rule(m.rule); break; }
      case 15: { if (r.chance(1, 2)) { BLContextHints h; h.reset(); h.gradient_quality = uint8_t(r.below(3)); h.pattern_quality = uint8_t(r.below(2)); OP("hints"); e = c.set_hints(h); m.hints.rendering_quality = h.rendering_quality; m.hints.gradient_quality = h.gradient_quality; m.hints.pattern_quality = h.pattern_quality; } else if (r.chance(1, 2)) { m.hints.gradient_quality = uint8_t(r.below(3)); OP("gradient quality"); e = c.set_gradient_quality(BLGradientQuality(m.hints.gradient_quality)); } else { m.hints.pattern_quality = uint8_t(r.below(2)); OP("pattern quality"); e = c.set_pattern_quality(BLPatternQuality(m.hints.pattern_quality)); } break; }
      case 16: case 17: { int w = int(r.below(9)); OP("stroke option %d", w); count("stroke options"); switch (w) { case 0: m.so.width = r.dbl(0, 12); e = c.set_stroke_width(m.so.width); break; case 1: m.so.miter_limit = r.dbl(0, 9); e = c.set_stroke_miter_limit(m.so.miter_limit); break; case 2: m.so.join = uint8_t(r.below(BL_STROKE_JOIN_MAX_VALUE + 1)); e = c.set_stroke_join(BLStrokeJoin(m.so.join)); break; case 3: m.so.start_cap = uint8_t(r.below(BL_STROKE_CAP_MAX_VALUE + 1)); e = c.set_stroke_start_cap(BLStrokeCap(m.so.start_cap)); break; case 4: m.so.end_cap = uint8_t(r.below(BL_STROKE_CAP_MAX_VALUE + 1)); e = c.set_stroke_cap(BL_STROKE_CAP_POSITION_END, BLStrokeCap(m.so.end_cap)); break; case 5: m.so.start_cap = m.so.end_cap = uint8_t(r.below(BL_STROKE_CAP_MAX_VALUE + 1)); e = c.set_stroke_caps(BLStrokeCap(m.so.end_cap)); break;
          case 6: m.so.transform_order = uint8_t(r.below(2)); e = c.set_stroke_transform_order(BLStrokeTransformOrder(m.so.transform_order)); break; case 7: { BLArray<double> a; for (int j = int(r.below(4)); j--;) a.append(r.dbl(1, 9)); m.so.dash_array = a; e = c.set_stroke_dash_array(a); break; } default: m.so.dash_offset = r.dbl(0, 20); e = c.set_stroke_dash_offset(m.so.dash_offset); } break; }
      case 18: { BLStrokeOptions o; o.width = r.dbl(0, 9); o.miter_limit = r.dbl(1, 5); o.join = uint8_t(r.below(5)); o.start_cap = uint8_t(r.below(6)); o.end_cap = uint8_t(r.below(6)); o.dash_offset = r.dbl(0, 9); if (r.chance(1, 2)) { o.dash_array.append(r.dbl(1, 9)); o.dash_array.append(r.dbl(1, 9)); } o.transform_order = uint8_t(r.below(2)); OP("stroke options"); e = c.set_stroke_options(o); m.so = o; count("stroke options"); break; }
      case 19: { int w = int(r.below(3)); if (w == 0) { OP("flatten mode"); m.ao.flatten_mode = uint8_t(r.below(BL_FLATTEN_MODE_MAX_VALUE + 1)); e = c.set_flatten_mode(BLFlattenMode(m.ao.flatten_mode)); } else if (w == 1) { double tl = r.dbl(0.01, 0.5); OP("flatten tolerance"); e = c.set_flatten_tolerance(tl); m.ao.flatten_tolerance = tl; } else { BLApproximationOptions o = m.ao; o.flatten_tolerance = r.dbl(0.01, 0.5); o.offset_parameter = r.dbl(0.1, 0.9); o.simplify_tolerance = r.dbl(0.01, 0.5); o.offset_mode = uint8_t(r.below(BL_OFFSET_MODE_MAX_VALUE + 1)); o.flatten_mode = uint8_t(r.below(BL_FLATTEN_MODE_MAX_VALUE + 1)); OP("approximation options"); e = c.set_approximation_options(o); m.ao = o; } break; }
      case 20: case 21: { P29Clip q; q.m = m.fin; q.d = rect(); q.integral = r.chance(1, 2); q.i = BLRectI(int(q.d.x), int(q.d.y), int(q.d.w), int(q.d.h)); OP("clip"); e = q.integral ? c.clip_to_rect(q.i) : c.clip_to_rect(q.d); m.clips.push_back(q); count("clips"); break; }
      case 22: { OP("restore clipping"); e = c.restore_clipping(); if (stack.empty()) m.clips.clear(); else m.clips = stack.back().s.clips; count("clips restored"); break; }
      case 23: case 24: { // Calls that have to fail.
        fails = true; int w = int(r.below(17)); uint32_t bad = r.chance(1, 2) ? 0xFFFFFFFFu : 200; OP("failing call %d", w); switch (w) { case 0: e = c.set_comp_op(BLCompOp(bad)); break; case 1: e = c.set_fill_rule(BLFillRule(bad)); break; case 2: e = c.set_hint(BLContextHint(bad), 0); break; case 3: e = c.set_gradient_quality(BLGradientQuality(bad)); break; case 4: { BLContextHints h = m.hints; h.gradient_quality = 1; h.pattern_quality = 99; e = c.set_hints(h); break; } case 5: e = c.set_global_alpha(NAN); break; case 6: e = c.set_style_alpha(BLContextStyleSlot(r.below(2)), NAN); break; case 7: e = c.set_style_alpha(BLContextStyleSlot(bad), 0.5); break; case 8: e = c.set_stroke_join(BLStrokeJoin(bad)); break; case 9: e = c.set_stroke_cap(BLStrokeCapPosition(bad), BL_STROKE_CAP_BUTT); break; case 10: e = c.set_stroke_caps(BLStrokeCap(bad)); break; case 11: e = c.set_stroke_transform_order(BLStrokeTransformOrder(bad)); break; case 12: { BLStrokeOptions o; o.join = 99; o.width = 77; e = c.set_stroke_options(o); break; } case 13: e = c.set_flatten_mode(BLFlattenMode(bad)); break; case 14: if (r.chance(1, 2)) e = c.set_flatten_tolerance(NAN); else { BLApproximationOptions o = m.ao; o.flatten_tolerance = NAN; o.flatten_mode = 0; e = c.set_approximation_options(o); } break;
          case 15: e = c.swap_styles(BLContextStyleSwapMode(bad)); break; default: { BLContextStyleSlot sl = BLContextStyleSlot(r.chance(1, 2) ? 2 : bad); switch (r.below(6)) { case 0: e = c.set_style(sl, BLRgba32(1)); break; case 1: e = c.set_style(sl, BLRgba64(1)); break; case 2: e = c.set_style(sl, BLRgba(1, 1, 1, 1)); break; case 3: e = c.set_style(sl, grad()); break; case 4: e = c.disable_style(sl); break; default: { BLVar v; BLString s("x"); v = s; e = c.set_style(BLContextStyleSlot(r.below(2)), v); } } } } count("failing calls"); VH_CHECK(e != BL_SUCCESS, "not-rejected", "%s: %s was accepted", log.c_str(), op); break; }
      default: { // Draw with the context and with one that is set up from the model.
        OP("drawing"); VH_OK(c.flush(BL_CONTEXT_FLUSH_SYNC), "flush"); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) u.set(x, y, t.get(x, y)); uint64_t seed = r.u64(); p29_draw(c, seed, W, H, fonts, im.img, var); VH_OK(c.flush(BL_CONTEXT_FLUSH_SYNC), "flush"); { BLContext b(u.img); p29_apply(b, m); p29_draw(b, seed, W, H, fonts, im.img, var); VH_OK(b.end(), "end"); } int bx = -1, by = 0; for (int y = 0; y < H && bx < 0; y++) for (int x = 0; x < W; x++) if (t.get(x, y) != u.get(x, y)) { bx = x; by = y; break; }
        VH_CHECK(bx < 0, "drawing", "%s: drawing %llu isn't what a context set up with the same state draws, pixel (%d,%d) is %08X, not %08X", log.c_str(), (unsigned long long)seed, bx, by, t.get(bx, by), u.get(bx, by)); probes++; count("drawings compared"); }
    }
#undef OP
    if (log.size() < 1500) { log += ' '; log += op; log += ','; } if (st().verbose) { printf("  %s -> %u\n", op, e); fflush(stdout); }
    if (!fails) VH_CHECK(e == BL_SUCCESS, "error", "%s: %s returned %u", log.c_str(), op, e); p29_getters(c, m, stack, op, log); count("steps"); if (stack.size() > 3) count("steps four or more states deep"); }
  Hash h; h.add(W).add(H).add(steps).add(probes).add(r.u64()); distinct(h.h); sample("%s", log.c_str()); VH_OK(c.end(), "end"); int qx, qy; VH_CHECK(!im.changed_outside(0, 0, 0, 0, qx, qy), "source-changed", "%s changed an image that was only read", log.c_str());
}
