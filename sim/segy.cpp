#include "segy.hpp"
#include "std_layout.hpp"
#include "std_text.hpp"
#include "OSEGY.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include <algorithm>
#include <set>

using namespace sedaman;

std::vector<int> const all_formats = { 5, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 15, 16 };

VT fmt_type(int fmt)
{
    switch (fmt) {
    case 1: return VT::ibm;
    case 2: return VT::int32;
    case 3: return VT::int16;
    case 5: return VT::ieee_single;
    case 6: return VT::ieee_double;
    case 7: return VT::int24;
    case 8: return VT::int8;
    case 9: return VT::int64;
    case 10: return VT::uint32;
    case 11: return VT::uint16;
    case 12: return VT::uint64;
    case 15: return VT::uint24;
    default: return VT::uint8; // 16
    }
}
int fmt_bytes(int fmt) { return vt_size(fmt_type(fmt)); }
double decode_sample(int fmt, char const* p, bool le)
{
    VT t = fmt_type(fmt);
    Scalar s = vt_decode(p, t, le);
    if (s.is_double) return s.d;
    return t == VT::uint64 ? static_cast<double>(static_cast<uint64_t>(s.i)) : static_cast<double>(s.i);
}
int SegyFile::bps() const { return fmt_bytes(bh.format_code); }

std::string rand_bytes(uint32_t seed, size_t n)
{
    std::string r(n, '\0');
    if (!seed) return r;
    Rng g(seed);
    // runs of the same kind make sign bits, zeros and carries likely
    size_t i = 0;
    while (i < n) {
        uint64_t m = g.next(), v = g.next();
        size_t k = std::min<size_t>(n - i, 1 + (m >> 8 & 15));
        switch (m & 7) {
        case 0: memset(&r[i], 0, k); break;
        case 1: memset(&r[i], 0xff, k); break;
        case 2: for (size_t j = 0; j < k; ++j) r[i + j] = static_cast<char>(j ? 0 : 0x80); break;
        case 3: for (size_t j = 0; j < k; ++j) r[i + j] = static_cast<char>(j ? 0xff : 0x7f); break;
        default:
            for (size_t j = 0; j < k; ++j) { r[i + j] = static_cast<char>(v); v = v >> 8 ? v >> 8 : g.next(); }
        }
        i += k;
    }
    return r;
}

std::string gen_text(Choices& ch)
{
    uint32_t seed = ch.seed32();
    std::string t = rand_bytes(seed, 3200);
    if (!seed) t.assign(3200, ' ');
    if (!t.compare(0, 6, "((SEG:")) t[0] = 'C';
    if (seed && ch.one_in(6)) {
        // other stanzas, and text that looks like an end of text and is none
        static char const* const heads[] = { "((SEG: Location Data ver 1.0))", "((SEG: EndTexts))", "((SEG: ENDTEXT))", " ((SEG: EndText))",
            "((SEG: EndText)", "((SEG:", "((SEG: End", "(SEG: EndText))", "((JP: Example))" };
        std::string h = heads[seed % 9];
        if (h == "((SEG: ENDTEXT))" || h == "((SEG: EndTexts))") h[14] = 'x'; // not an end in any spelling
        if (h.size() < 16) h.resize(16, ' ');
        t.replace(0, h.size(), h);
    }
    return t;
}
static std::string end_stanza(bool ebcdic)
{
    std::string t = "((SEG: EndText))";
    if (ebcdic)
        for (auto& c : t) c = static_cast<char>(std_a2e[static_cast<uint8_t>(c)]);
    return t;
}

Layout std_layout()
{
    Layout l(2);
    l[0].name = "SEG00000";
    for (auto& f : std_main) l[0].f.push_back({ f.off, f.name, f.type });
    l[1].name = "SEG00001";
    for (auto& f : std_ext1) l[1].f.push_back({ f.off, f.name, f.type });
    return l;
}

LibLayout to_lib(Layout const& l)
{
    static Trace::Header::ValueType const vt[] = {
        Trace::Header::ValueType::int8_t, Trace::Header::ValueType::uint8_t, Trace::Header::ValueType::int16_t,
        Trace::Header::ValueType::uint16_t, Trace::Header::ValueType::int24_t, Trace::Header::ValueType::uint24_t,
        Trace::Header::ValueType::int32_t, Trace::Header::ValueType::uint32_t, Trace::Header::ValueType::int64_t,
        Trace::Header::ValueType::uint64_t, Trace::Header::ValueType::ibm, Trace::Header::ValueType::ieee_single,
        Trace::Header::ValueType::ieee_double
    };
    LibLayout r;
    for (auto& h : l) {
        r.emplace_back(h.name, LibLayout::value_type::second_type {});
        for (auto& f : h.f) r.back().second[f.off] = { f.name, vt[static_cast<int>(f.type)] };
    }
    return r;
}

// offset, size, kind (i: integer, d: IEEE double, b: raw byte order constant), member
#define BIN_FIELDS(F) \
    F(0, 4, job_id) F(4, 4, line_num) F(8, 4, reel_num) F(12, 2, tr_per_ens) F(14, 2, aux_per_ens) \
    F(16, 2, samp_int) F(18, 2, samp_int_orig) F(20, 2, samp_per_tr) F(22, 2, samp_per_tr_orig) \
    F(24, 2, format_code) F(26, 2, ens_fold) F(28, 2, sort_code) F(30, 2, vert_sum_code) \
    F(32, 2, sw_freq_at_start) F(34, 2, sw_freq_at_end) F(36, 2, sw_length) F(38, 2, sw_type_code) \
    F(40, 2, sw_ch_tr_num) F(42, 2, taper_at_start) F(44, 2, taper_at_end) F(46, 2, taper_type) \
    F(48, 2, corr_traces) F(50, 2, bin_gain_recov) F(52, 2, amp_recov_meth) F(54, 2, measure_system) \
    F(56, 2, impulse_sig_pol) F(58, 2, vib_pol_code) F(60, 4, ext_tr_per_ens) F(64, 4, ext_aux_per_ens) \
    F(68, 4, ext_samp_per_tr) F(88, 4, ext_samp_per_tr_orig) F(92, 4, ext_ens_fold) \
    F(300, 1, SEGY_rev_major_ver) F(301, 1, SEGY_rev_minor_ver) F(302, 2, fixed_tr_length) \
    F(304, 2, ext_text_headers_num)
#define BIN_FIELDS2(F) \
    F(306, 4, max_num_add_tr_headers) F(310, 2, time_basis_code) F(312, 8, num_of_tr_in_file) \
    F(320, 8, byte_off_of_first_tr) F(328, 4, num_of_trailer_stanza)

std::string enc_bin_header(BinHdr const& b, bool le)
{
    std::string r(400, '\0');
#define F(o, n, m) put_uint(&r[o], static_cast<uint64_t>(static_cast<int64_t>(b.m)), n, le);
    BIN_FIELDS(F)
    BIN_FIELDS2(F)
#undef F
    put_uint(&r[72], u64(b.ext_samp_int), 8, le);
    put_uint(&r[80], u64(b.ext_samp_int_orig), 8, le);
    // the value 16909060, stored in the byte order of the file
    if (b.endianness) put_uint(&r[96], 0x01020304, 4, le);
    return r;
}

void compare_bin_header(BinHdr const& g, BinHdr const& w, char const* what)
{
#define F(o, n, m) \
    if (g.m != w.m) violate("binary-header: %s: field %s (byte %d) is %lld, expected %lld", what, #m, o + 3201, \
        (long long)g.m, (long long)w.m);
    BIN_FIELDS(F)
    BIN_FIELDS2(F)
#undef F
    if (!same_double(g.ext_samp_int, w.ext_samp_int) || !same_double(g.ext_samp_int_orig, w.ext_samp_int_orig))
        violate("binary-header: %s: extended sample interval differs", what);
    if (g.endianness != w.endianness)
        violate("binary-header: %s: byte order constant is %x, expected %x", what, g.endianness, w.endianness);
}

std::string SegyFile::head() const
{
    std::string r = text[0];
    r += enc_bin_header(bh, le);
    for (size_t i = 1; i < text.size(); ++i) r += text[i];
    return r;
}
std::string SegyFile::trace_bytes(size_t i) const
{
    std::string r;
    for (auto& b : tr[i].hdr) r += b;
    return r + tr[i].raw;
}
std::string SegyFile::encode() const
{
    std::string r = head() + gap;
    for (size_t i = 0; i < tr.size(); ++i) {
        for (auto& b : tr[i].hdr) r += b;
        r += tr[i].raw;
    }
    for (auto& s : stanzas) r += s;
    return r + tail;
}

Holes SegyFile::holes() const
{
    Holes h;
    uint64_t at = 3600 + 3200 * (text.size() - 1) + gap.size();
    if (hole) h.push_back({ at, hole });
    for (size_t i = 0; i < tr_hole.size(); ++i) {
        at += 240 * tr[i].hdr.size() + tr[i].raw.size();
        if (tr_hole[i]) h.push_back({ at, tr_hole[i] });
    }
    return h;
}

// ------------------------------------------------------------------ generation
static VT const int_types[] = { VT::int32, VT::int16, VT::uint16, VT::uint32, VT::int24, VT::uint24, VT::int8, VT::uint8, VT::int64, VT::uint64 };
static VT const all_types[] = { VT::int32, VT::int16, VT::uint16, VT::uint32, VT::int24, VT::uint24, VT::int8, VT::uint8, VT::int64, VT::uint64, VT::ibm, VT::ieee_single, VT::ieee_double };

Layout gen_layout(Choices& ch, int blocks, bool need_samp_num, bool for_write)
{
    Layout l;
    static char const* const pool[] = { "CDP", "A", "FFID", "CHAN", "ELEV", "B1", "B2", "STAT", "X", "Y", "Z", "K" };
    for (int b = 0; b < blocks; ++b) {
        SHdr h;
        h.name = "HDR0000" + std::to_string(b % 10);
        int n = ch.range(0, 7);
        uint32_t off = 0;
        bool dense = ch.one_in(3);
        if (b == 0 && n == 0 && !ch.one_in(4)) n = 1;
        bool samp_here = need_samp_num && b == 0;
        uint32_t samp_at = samp_here ? ch.draw(n + 1) : 99;
        bool tail_pinned = ch.one_in(4); // last field ends at byte 240
        int total = n + (samp_here ? 1 : 0);
        for (int i = 0; i < total; ++i) {
            VT t;
            std::string name;
            if (static_cast<uint32_t>(i) == samp_at) {
                static VT const st[] = { VT::int32, VT::int16, VT::uint16, VT::uint32, VT::int24, VT::int64, VT::uint64, VT::uint24 };
                t = st[ch.draw(8)];
                name = "SAMP_NUM";
            } else {
                t = all_types[ch.draw(13)];
                name = pool[ch.draw(12)];
            }
            if (!dense) off += ch.draw(20);
            if (i == total - 1 && tail_pinned && off + vt_size(t) <= 240) off = 240 - vt_size(t);
            if (off + vt_size(t) > 240) break;
            h.f.push_back({ off, name, t });
            off += vt_size(t);
        }
        if (samp_here && std::none_of(h.f.begin(), h.f.end(), [](SField const& f) { return f.name == "SAMP_NUM"; })) {
            h.f.clear();
            h.f.push_back({ 4, "SAMP_NUM", VT::int32 });
        }
        l.push_back(h);
    }
    (void)for_write;
    return l;
}

void decode_vals(SegyFile const& f, STrace& t)
{
    t.vals.clear();
    for (size_t b = 0; b < t.hdr.size() && b < f.layout.size(); ++b)
        for (auto& x : f.layout[b].f) t.vals[x.name] = vt_decode(t.hdr[b].data() + x.off, x.type, f.le);
}

void put_scalar(char* p, VT t, bool le, Scalar const& v)
{
    int64_t i = v.is_double ? static_cast<int64_t>(v.d) : v.i;
    double d = v.is_double ? v.d : static_cast<double>(v.i);
    if (t == VT::ieee_single) put_uint(p, u32(static_cast<float>(d)), 4, le);
    else if (t == VT::ieee_double) put_uint(p, u64(d), 8, le);
    else if (t == VT::ibm) {
        uint32_t u = 0;
        if (d != 0) {
            int e;
            std::frexp(std::fabs(d), &e);
            int e16 = (e + 3) >> 2;
            u = static_cast<uint32_t>(std::ldexp(std::fabs(d), 24 - 4 * e16)) | static_cast<uint32_t>(e16 + 64) << 24 | (d < 0 ? 1u << 31 : 0);
        }
        put_uint(p, u, 4, le);
    } else put_uint(p, static_cast<uint64_t>(i), vt_size(t), le);
}

void put_field(SegyFile const& f, STrace& t, std::string const& name, int64_t v)
{
    Scalar s;
    s.i = v;
    put_field(f, t, name, s);
}

void put_field(SegyFile const& f, STrace& t, std::string const& name, Scalar const& s)
{
    for (size_t b = 0; b < t.hdr.size() && b < f.layout.size(); ++b)
        for (auto& x : f.layout[b].f)
            if (x.name == name) put_scalar(&t.hdr[b][x.off], x.type, f.le, s);
    decode_vals(f, t);
}

int64_t rand_int(Rng& g, int bytes, bool sign)
{
    uint64_t v = g.next();
    switch (g.below(6)) {
    case 0: v = 0; break;
    case 1: v = ~uint64_t(0); break;
    case 2: v = uint64_t(1) << (8 * bytes - 1); break;
    case 3: v = (uint64_t(1) << (8 * bytes - 1)) - 1; break;
    default: break;
    }
    if (bytes < 8) v &= (uint64_t(1) << (8 * bytes)) - 1;
    return sign ? sext(v, bytes) : static_cast<int64_t>(v);
}

// significant bits every floating type of the list can hold
int float_bits(std::vector<VT> const& l)
{
    int b = 53;
    for (VT t : l) b = std::min(b, t == VT::ibm ? 20 : t == VT::ieee_single ? 23 : 53);
    return b;
}
double rand_exact(Rng& g, int bits)
{
    int64_t m = rand_int(g, 8, true) >> (63 - bits);
    if (!g.below(4)) m >>= g.below(static_cast<uint32_t>(bits));
    return std::ldexp(static_cast<double>(m), static_cast<int>(g.below(40)) - bits);
}

// header blocks a writer can produce from one value per name
static void fill_for_write(SegyFile const& f, STrace& t, uint32_t seed)
{
    Rng g(seed);
    std::map<std::string, std::vector<VT>> use;
    for (size_t b = 0; b < t.hdr.size() && b < f.layout.size(); ++b)
        for (auto& x : f.layout[b].f) use[x.name].push_back(x.type);
    for (auto& u : use) {
        Scalar v;
        int bytes = 8;
        bool any_int = false, any_float = false, sign = true, unsig = false;
        for (VT ty : u.second) {
            if (vt_float(ty)) { any_float = true; continue; }
            any_int = true;
            bytes = std::min(bytes, vt_size(ty));
            (ty == VT::uint8 || ty == VT::uint16 || ty == VT::uint24 || ty == VT::uint32 || ty == VT::uint64 ? unsig : sign) = true;
        }
        bool has_signed = false;
        for (VT ty : u.second) has_signed |= ty == VT::int8 || ty == VT::int16 || ty == VT::int24 || ty == VT::int32 || ty == VT::int64;
        if (!seed) {
            v.i = 0;
        } else if (any_int) {
            v.i = rand_int(g, bytes, has_signed && !unsig);
            if (has_signed && unsig && bytes < 8) v.i &= (int64_t(1) << (8 * bytes - 1)) - 1;
            if (any_float) v.i %= int64_t(1) << float_bits(u.second);
        } else {
            v.is_double = true;
            v.d = rand_exact(g, float_bits(u.second));
        }
        (void)sign;
        for (size_t b = 0; b < t.hdr.size() && b < f.layout.size(); ++b)
            for (auto& x : f.layout[b].f)
                if (x.name == u.first) put_scalar(&t.hdr[b][x.off], x.type, f.le, v);
    }
}

// make the stored samples ones that a writer produces from their decoded value
static void canonical(std::string& raw, int fmt, bool le)
{
    int n = fmt_bytes(fmt);
    for (size_t i = 0; i + n <= raw.size(); i += n) {
        uint64_t u = get_uint(&raw[i], n, le);
        if (fmt == 1) {
            if (!(u & 0xf00000)) u = (u & 0xfffff) ? u | 0x100000 : 0;
        } else if (fmt == 5) {
            if ((u >> 23 & 0xff) == 0xff) u &= ~uint64_t(0x40000000);
        } else if (fmt == 6) {
            if ((u >> 52 & 0x7ff) == 0x7ff) u &= ~(uint64_t(1) << 62);
        } else if (fmt == 9 || fmt == 12) {
            u &= ~uint64_t(0x7ff);
        }
        put_uint(&raw[i], u, n, le);
    }
}

STrace gen_trace(Choices& ch, SegyFile const& f, uint32_t ns, bool for_write)
{
    STrace t;
    t.ns = ns;
    uint32_t seed = ch.seed32();
    for (int b = 0; b <= f.nadd; ++b) t.hdr.push_back(for_write ? std::string(240, '\0') : rand_bytes(seed ? seed + 77 * (b + 1) : 0, 240));
    if (for_write) fill_for_write(f, t, seed);
    t.raw = rand_bytes(seed ? seed ^ 0x5a5a5a5a : 0, static_cast<size_t>(ns) * f.bps());
    if (for_write) canonical(t.raw, f.bh.format_code, f.le);
    int n = f.bps();
    t.smp.resize(ns);
    for (uint32_t i = 0; i < ns; ++i) t.smp[i] = decode_sample(f.bh.format_code, &t.raw[static_cast<size_t>(i) * n], f.le);
    if (for_write && (f.bh.format_code == 1 || f.bh.format_code == 5) && ch.one_in(5)) {
        // values between the representable ones
        t.loose = true;
        Rng g(seed + 3);
        for (auto& d : t.smp) {
            double e = f.bh.format_code == 1 ? 150.0 : 90.0;
            d = (g.next() & 1 ? 1 : -1) * std::exp((static_cast<double>(g.next() >> 11) / 9007199254740992.0 - 0.5) * e);
        }
    }
    decode_vals(f, t);
    return t;
}

static uint32_t gen_ns(Choices& ch, bool small, uint32_t cap)
{
    uint32_t n;
    if (!small && ch.one_in(60)) {
        static uint32_t const big[] = { 32767, 32768, 65535, 40000, 65536, 70001, 33000 };
        n = big[ch.draw(7)];
    } else if (ch.one_in(8)) {
        n = ch.range(100, 5000);
    } else {
        n = ch.range(0, 40);
    }
    return std::min(n, cap);
}

static void rand_bin_fields(Choices& ch, BinHdr& b)
{
    uint32_t seed = ch.seed32();
    if (!seed) return;
    Rng g(seed);
#define I16(m) b.m = static_cast<int16_t>(rand_int(g, 2, true));
#define I32(m) b.m = static_cast<int32_t>(rand_int(g, 4, true));
    I32(job_id) I32(line_num) I32(reel_num) I16(tr_per_ens) I16(aux_per_ens) I16(samp_int) I16(samp_int_orig)
    I16(samp_per_tr_orig) I16(ens_fold) I16(sort_code) I16(vert_sum_code) I16(sw_freq_at_start) I16(sw_freq_at_end)
    I16(sw_length) I16(sw_type_code) I16(sw_ch_tr_num) I16(taper_at_start) I16(taper_at_end) I16(taper_type)
    I16(corr_traces) I16(bin_gain_recov) I16(amp_recov_meth) I16(measure_system) I16(impulse_sig_pol) I16(vib_pol_code)
    I32(ext_tr_per_ens) I32(ext_aux_per_ens) I32(ext_samp_per_tr_orig) I32(ext_ens_fold)
    b.ext_samp_int = rand_exact(g, 53);
    b.ext_samp_int_orig = rand_exact(g, 53);
#undef I16
#undef I32
}

static uint32_t field_max(SegyFile const& f, char const* name)
{
    // largest value a reader gets back through the layout (the last block naming it wins)
    VT ty = VT::int32;
    for (size_t b = 0; b < f.layout.size() && b <= static_cast<size_t>(f.nadd); ++b)
        for (auto& x : f.layout[b].f)
            if (x.name == name) ty = x.type;
    switch (ty) {
    case VT::int8: return 127;
    case VT::uint8: return 255;
    case VT::int16: return 32767;
    case VT::uint16: return 65535;
    default: return 1u << 23;
    }
}

static void gen_common(Choices& ch, SegyFile& f, SegyGen const& o)
{
    f.rev = o.force_rev >= 0 ? o.force_rev : static_cast<int>(ch.draw(3));
    f.bh = BinHdr {};
    static int const ends[] = { 0, 1, 2 }; // BE unmarked, LE, BE marked
    int e = ends[ch.draw(3)];
    f.le = e == 1;
    f.marker = e != 0;
    f.bh.format_code = static_cast<int16_t>(all_formats[ch.draw(all_formats.size())]);
    rand_bin_fields(ch, f.bh);
    f.bh.endianness = e == 0 ? 0 : e == 1 ? 0x01020304 : 0x04030201;
    f.bh.SEGY_rev_major_ver = static_cast<uint8_t>(f.rev);
    f.bh.SEGY_rev_minor_ver = f.rev == 2 ? ch.draw(2) : 0;
    f.fixed = f.rev == 0 || (o.force_fixed >= 0 ? o.force_fixed : !ch.one_in(2));
    f.bh.fixed_tr_length = f.rev == 0 ? 0 : f.fixed;
    if (f.rev == 2 && ch.one_in(2)) f.nadd = ch.one_in(20) ? ch.range(4, 12) : ch.range(1, 3);
    f.bh.max_num_add_tr_headers = f.nadd;
    if (f.rev == 2) f.bh.time_basis_code = static_cast<int16_t>(ch.draw(4));
}

SegyFile gen_segy(Choices& ch, SegyGen const& o)
{
    SegyFile f;
    gen_common(ch, f, o);
    if (o.for_write) f.bh.ext_samp_int = f.bh.ext_samp_int; // already exact
    f.default_layout = !ch.one_in(2);
    if (f.default_layout) {
        f.layout = std_layout();
    } else {
        int blocks = f.nadd + 1;
        if (!o.for_write && ch.one_in(3)) blocks = std::max(1, blocks - 1 + static_cast<int>(ch.draw(3)));
        f.layout = gen_layout(ch, blocks, !f.fixed, o.for_write);
    }
    if (o.match_layout && f.nadd) f.bh.max_num_add_tr_headers = f.nadd = static_cast<int>(f.layout.size()) - 1;
    // samples per trace
    uint32_t cap = f.fixed ? (f.rev == 2 ? 1u << 20 : 65535) : field_max(f, "SAMP_NUM");
    f.ns = gen_ns(ch, o.small, cap);
    if (f.fixed && f.rev == 2 && (f.ns > 65535 || ch.one_in(2))) {
        f.bh.ext_samp_per_tr = static_cast<int32_t>(f.ns);
        f.bh.samp_per_tr = ch.one_in(2) ? static_cast<int16_t>(f.ns) : static_cast<int16_t>(ch.seed32());
        if (!f.ns) f.bh.samp_per_tr = 0;
    } else {
        f.bh.samp_per_tr = static_cast<int16_t>(f.ns);
    }
    // text
    f.text.push_back(gen_text(ch));
    int ext = f.rev ? ch.draw(4) : 0;
    if (ext && !o.small && ch.one_in(50)) ext = ch.range(4, 140);
    for (int i = 0; i < ext; ++i) f.text.push_back(gen_text(ch));
    f.bh.ext_text_headers_num = static_cast<int16_t>(ext);
    if (ext && o.allow_term && ch.one_in(3)) {
        f.text.back().replace(0, 16, end_stanza(ch.one_in(2)));
        f.bh.ext_text_headers_num = -1;
    } else if (ext && ch.one_in(10)) {
        f.text.back().replace(0, 16, end_stanza(false)); // counted all the same
    }
    // traces
    int n = ch.range(o.min_tr, o.max_tr);
    if (f.ns > 20000) n = std::min(n, 2);
    bool crowd = o.crowd && f.ns <= 40 && ch.one_in(o.crowd);
    if (crowd) n = ch.range(9, ch.one_in(3) ? 300 : 60);
    for (int i = 0; i < n; ++i) {
        uint32_t ns = f.fixed ? f.ns : (i == 0 || ch.one_in(2) ? f.ns : crowd ? std::min<uint32_t>(cap, ch.draw(20)) : gen_ns(ch, true, cap));
        STrace t = gen_trace(ch, f, ns, o.for_write);
        if (!f.fixed) put_field(f, t, "SAMP_NUM", ns);
        f.tr.push_back(std::move(t));
    }
    if (f.rev == 2) {
        f.bh.num_of_tr_in_file = ch.one_in(2) ? n : 0;
        int st = ch.one_in(2) ? ch.draw(4) : 0;
        if (st && !o.small && ch.one_in(50)) st = ch.range(4, 140);
        for (int i = 0; i < st; ++i) f.stanzas.push_back(gen_text(ch));
        f.bh.num_of_trailer_stanza = st;
        if (st && n && o.allow_term && ch.one_in(3)) {
            f.stanzas.back().replace(0, 16, end_stanza(ch.one_in(2)));
            f.bh.num_of_trailer_stanza = -1;
            f.bh.num_of_tr_in_file = n;
        }
        if (o.allow_hole && ch.one_in(4)) {
            f.gap = std::string(ch.draw(2) ? ch.range(1, 9000) : 0, 'g');
            if (ch.one_in(4)) {
                static uint64_t const h[] = { 100000, 0x7fffff00ull, 0x80000000ull, 0xffffff00ull, 5000000000ull };
                f.hole = h[ch.draw(5)];
            }
            f.bh.byte_off_of_first_tr = 3600 + 3200 * static_cast<uint64_t>(f.text.size() - 1) + f.gap.size() + f.hole;
        }
    }
    return f;
}

bool make_huge(Choices& ch, SegyFile& f)
{
    if (f.fixed ? f.rev < 2 : field_max(f, "SAMP_NUM") < (1u << 23)) return false;
    static uint32_t const big[] = { 1u << 28, (1u << 28) + 5, (1u << 29) + 1, 1u << 30, (1u << 30) + 7, 0x7fffffff, 0x12345678, 0x7ffffff };
    VT ty = VT::int32;
    for (size_t b = 0; b < f.layout.size() && b <= static_cast<size_t>(f.nadd); ++b)
        for (auto& x : f.layout[b].f)
            if (x.name == "SAMP_NUM") ty = x.type;
    if (!f.fixed && vt_size(ty) < 4) return false;
    uint32_t ns = big[ch.draw(8)];
    f.ns = ns;
    if (f.fixed) f.bh.ext_samp_per_tr = static_cast<int32_t>(ns);
    f.tr_hole.clear();
    for (auto& t : f.tr) {
        if (f.fixed || ch.one_in(2)) {
            t.ns = f.fixed || ch.one_in(2) ? ns : big[ch.draw(8)];
            t.raw.clear();
            t.smp.clear();
            if (!f.fixed) put_field(f, t, "SAMP_NUM", t.ns);
            f.tr_hole.push_back(static_cast<uint64_t>(t.ns) * f.bps());
        } else {
            f.tr_hole.push_back(0);
        }
    }
    return true;
}

// ------------------------------------------------------------------ comparison
Val to_val(Scalar const& s)
{
    if (s.is_double) return Val(s.d);
    return Val(s.i);
}
static std::string show(Val const& v)
{
    char b[64];
    if (std::holds_alternative<int64_t>(v)) snprintf(b, sizeof b, "int %lld", (long long)std::get<int64_t>(v));
    else snprintf(b, sizeof b, "double %.17g", std::get<double>(v));
    return b;
}
static bool same_val(Val const& a, Scalar const& s)
{
    if (std::holds_alternative<int64_t>(a)) return !s.is_double && std::get<int64_t>(a) == s.i;
    return s.is_double && same_double(std::get<double>(a), s.d);
}
std::string diff_header(Trace::Header const& h, STrace const& t)
{
    for (auto& v : t.vals) {
        auto g = h.get(v.first);
        if (!g) return "header value " + v.first + " missing";
        if (!same_val(*g, v.second)) return "header value " + v.first + " is " + show(*g) + ", expected " + show(to_val(v.second));
    }
    auto k = h.keys();
    if (k.size() != t.vals.size()) {
        for (auto& s : k)
            if (!t.vals.count(s)) return "unexpected header value " + s;
        return "duplicate header keys";
    }
    return "";
}
static std::string diff_samples(std::vector<double> const& g, STrace const& t)
{
    if (g.size() != t.smp.size()) return "trace has " + std::to_string(g.size()) + " samples, expected " + std::to_string(t.smp.size());
    for (size_t i = 0; i < g.size(); ++i)
        if (!same_double(g[i], t.smp[i])) {
            char b[160];
            snprintf(b, sizeof b, "sample %zu is %.17g, expected %.17g", i, g[i], t.smp[i]);
            return b;
        }
    return "";
}
std::string diff_trace(Trace const& g, STrace const& t)
{
    std::string d = diff_header(g.header_const(), t);
    return d.empty() ? diff_samples(g.samples(), t) : d;
}
bool header_equal(Trace::Header const& h, STrace const& t) { return diff_header(h, t).empty(); }
bool trace_equal(Trace const& g, STrace const& t)
{
    return diff_header(g.header_const(), t).empty() && diff_samples(g.samples(), t).empty();
}
void compare_header(Trace::Header const& h, STrace const& t, char const* what)
{
    std::string d = diff_header(h, t);
    if (!d.empty()) violate("trace-header: %s: %s", what, d.c_str());
}
void compare_trace(Trace const& g, STrace const& t, char const* what)
{
    compare_header(g.header_const(), t, what);
    std::string d = diff_samples(g.samples(), t);
    if (!d.empty()) violate("trace-samples: %s: %s", what, d.c_str());
}
Trace to_trace(SegyFile const& f, STrace const& t)
{
    (void)f;
    std::unordered_map<std::string, Val> m;
    for (auto& v : t.vals) m[v.first] = to_val(v.second);
    for (auto& n : t.absent) m.erase(n);
    for (auto& n : t.extra) m[n] = Val(static_cast<int64_t>(-1));
    return Trace(std::move(m), t.smp);
}

// ------------------------------------------------------------------ reading
std::unique_ptr<ISEGY> open_segy(SegyFile const& f, std::string const& path, Choices& ch, bool may_override)
{
    bool def = f.default_layout && ch.draw(2) == 0;
    bool over = false;
    {
        // an override with more than one block per trace needs a matching layout
        bool ok = f.rev < 2 || !f.nadd || f.layout.size() == static_cast<size_t>(f.nadd) + 1;
        if (may_override && ok) over = ch.one_in(4);
    }
    if (over) {
        BinHdr b = f.bh;
        b.endianness = 0;
        if (def) return lib([&] { return std::make_unique<ISEGY>(path, b); });
        LibLayout l = to_lib(f.layout);
        return lib([&] { return std::make_unique<ISEGY>(path, b, l); });
    }
    if (def) return lib([&] { return std::make_unique<ISEGY>(path); });
    LibLayout l = to_lib(f.layout);
    return lib([&] { return std::make_unique<ISEGY>(path, l); });
}

// a client that shows text headers, or composes them, in ASCII
void client_text(std::vector<std::string> const& ebcdic)
{
    static std::string const back = [] {
        std::string r(256, 0);
        for (int i = 0; i < 256; ++i) r[std_a2e[i]] = static_cast<char>(i);
        return r;
    }();
    for (auto& e : ebcdic) {
        std::string want = e;
        for (char& c : want) c = back[static_cast<uint8_t>(c)];
        std::string t = e;
        lib([&] { CommonSEGY::ebcdic_to_ascii(t); });
        if (t != want) violate("text-encoding: a text header is shown wrong in ASCII");
        lib([&] { CommonSEGY::ascii_to_ebcdic(t); });
        if (t != e) violate("text-encoding: a text header is not what it was after conversion to ASCII and back");
    }
    count("workload.text_conversion");
}

void session_read_segy(Sim& s, SegyFile const& f, std::string const& path)
{
    Choices& ch = s.ch;
    BinHdr want = f.bh;
    // the static getter has no layout parameter: walking over variable traces needs the standard one
    bool walk = f.bh.num_of_trailer_stanza == -1 && !f.fixed;
    if ((f.default_layout || !walk) && ch.one_in(6)) {
        BinHdr b = lib([&] { return ISEGY::read_binary_header(path); });
        compare_bin_header(b, want, "binary header read on its own");
    }
    auto r = open_segy(f, path, ch);
    compare_bin_header(lib([&] { return r->binary_header(); }), want, "binary header");
    auto texts = lib([&] { return r->text_headers(); });
    if (texts != f.text) violate("text-header: %zu text headers returned, or with other contents; expected %zu", texts.size(), f.text.size());
    if (ch.one_in(5)) client_text(texts);
    auto st = lib([&] { return r->trailer_stanzas(); });
    if (st != f.stanzas) violate("trailer-stanza: %zu trailer stanzas returned, or with other contents; expected %zu", st.size(), f.stanzas.size());
    for (size_t i = 0; i < f.tr.size(); ++i) {
        for (uint32_t k = ch.draw(3); k; --k)
            if (!lib([&] { return r->has_trace(); })) violate("has-trace: no trace reported before trace %zu of %zu", i, f.tr.size());
        char w[64];
        snprintf(w, sizeof w, "trace %zu of %zu", i, f.tr.size());
        if ((i < f.tr_hole.size() && f.tr_hole[i]) || ch.one_in(3)) {
            Trace::Header h = lib([&] { return r->read_header(); });
            compare_header(h, f.tr[i], w);
        } else {
            Trace t = lib([&] { return r->read_trace(); });
            compare_trace(t, f.tr[i], w);
        }
        s.mix(f.tr[i].ns);
    }
    if (lib([&] { return r->has_trace(); })) violate("has-trace: a trace is reported after the last of %zu", f.tr.size());
    if (ch.one_in(8)) {
        bool threw = false;
        try {
            lib([&] { return r->read_trace(); });
        } catch (std::exception&) {
            threw = true;
        }
        if (!threw) violate("past-end: reading past the last trace returned a trace");
    }
    lib([&] { r.reset(); });
}

// ------------------------------------------------------------------ writing
std::string default_text(int rev)
{
    std::string t = std_text;
    size_t p = t.find("SEG-Y_REV2.0");
    if (rev == 0) {
        t.replace(p, 12, std::string(12, ' '));
        for (auto& c : t) c = static_cast<char>(std_a2e[static_cast<uint8_t>(c)]);
    } else if (rev == 1) {
        t.replace(p, 12, "SEG Y REV1  ");
    }
    return t;
}

WritePlan gen_write_plan(Choices& ch, bool small, int min_tr, int max_tr)
{
    WritePlan p;
    SegyFile& f = p.f;
    p.empty_bh = ch.one_in(4);
    if (p.empty_bh) {
        f.rev = ch.draw(3);
        f.bh = BinHdr {};
        f.bh.format_code = f.rev ? 5 : 1;
        f.fixed = f.rev == 0;
        f.text.push_back(gen_text(ch));
        f.default_layout = !ch.one_in(3);
        f.layout = std_layout();
        if (!f.default_layout) {
            f.layout = gen_layout(ch, 1 + ch.draw(2), true, true);
            // the sampling interval has to come from the trace header as well
            bool has = false;
            for (auto& x : f.layout[0].f) has |= x.name == "SAMP_INT";
            if (!has) {
                uint32_t end = 0;
                for (auto& x : f.layout[0].f) end = std::max<uint32_t>(end, x.off + vt_size(x.type));
                if (end + 4 <= 240) f.layout[0].f.push_back({ end, "SAMP_INT", ch.draw(2) ? VT::ieee_single : VT::int32 });
                else { f.default_layout = true; f.layout = std_layout(); }
            }
        }
        uint32_t cap = std::min<uint32_t>(32767, field_max(f, "SAMP_NUM"));
        f.ns = gen_ns(ch, small, cap);
        int n = ch.range(min_tr, max_tr);
        for (int i = 0; i < n; ++i) {
            uint32_t ns = f.fixed || i == 0 || ch.one_in(2) ? f.ns : gen_ns(ch, true, cap);
            STrace t = gen_trace(ch, f, ns, true);
            put_field(f, t, "SAMP_NUM", ns);
            if (i == 0) {
                int64_t si = ch.one_in(8) ? 32767 : 1 + ch.draw(32767);
                put_field(f, t, "SAMP_INT", si);
            }
            f.tr.push_back(std::move(t));
        }
        p.given = BinHdr {};
        if (ch.one_in(2)) p.given.format_code = f.bh.format_code;
        if (f.rev) f.bh.SEGY_rev_major_ver = static_cast<uint8_t>(f.rev);
        if (n) {
            f.bh.samp_per_tr = static_cast<int16_t>(f.tr[0].ns);
            Scalar si = f.tr[0].vals["SAMP_INT"];
            f.bh.samp_int = static_cast<int16_t>(si.is_double ? static_cast<int64_t>(si.d) : si.i);
        }
    } else {
        SegyGen o;
        o.for_write = true;
        o.small = small;
        o.allow_hole = false;
        o.allow_term = false;
        o.min_tr = min_tr;
        o.max_tr = max_tr;
        o.crowd = small ? 0 : 40;
        f = gen_segy(ch, o);
        if (f.bh.samp_int == 0) f.bh.samp_int = 2000;
        if (f.rev == 2 && ch.one_in(4)) f.bh.byte_off_of_first_tr = 3600 + 3200 * static_cast<uint64_t>(f.text.size() - 1);
        p.given = f.bh;
        // counts are the writer's business
        if (f.rev >= 1 && ch.one_in(2)) p.given.ext_text_headers_num = 0;
        if (f.rev == 2 && ch.one_in(2)) p.given.num_of_trailer_stanza = 0;
        if (f.rev >= 1 && ch.one_in(3)) p.given.SEGY_rev_major_ver = 0;
        if (p.given.SEGY_rev_major_ver == 0) p.given.SEGY_rev_minor_ver = f.bh.SEGY_rev_minor_ver = 0;
        if (f.rev == 2 && f.default_layout && f.nadd > 1) p.given.SEGY_rev_major_ver = 0, p.given.SEGY_rev_minor_ver = f.bh.SEGY_rev_minor_ver = 0;
        int def = f.rev ? 5 : 1;
        if (f.bh.format_code == def && ch.one_in(3)) p.given.format_code = 0;
        // now and then a trace with fewer samples than the record holds
        for (auto& t : f.tr)
            if (t.ns && ch.one_in(12)) {
                uint32_t k = ch.draw(t.ns);
                t.smp.resize(k);
                for (size_t b = static_cast<size_t>(k) * f.bps(); b < t.raw.size(); ++b) t.raw[b] = 0;
            }
    }
    // values the client does not have are stored as zero, values without a place are not stored
    for (auto& t : f.tr)
        if (ch.one_in(6)) {
            for (uint32_t k = 1 + ch.draw(3); k; --k) {
                auto& b = f.layout[ch.draw(static_cast<uint32_t>(std::min(f.layout.size(), t.hdr.size())))].f;
                if (b.empty()) continue;
                std::string n = b[ch.draw(static_cast<uint32_t>(b.size()))].name;
                if (n == "SAMP_NUM" || n == "SAMP_INT") continue;
                put_field(f, t, n, 0);
                t.absent.push_back(n);
            }
            if (ch.draw(2)) t.extra.push_back("NOT_IN_LAYOUT");
            count("workload.absent_header_values");
        }
    p.given_text = f.text;
    if (f.text.size() == 1 && ch.one_in(3)) {
        p.given_text.clear();
        f.text[0] = default_text(f.rev);
    }
    return p;
}

std::unique_ptr<OSEGY> open_writer(WritePlan const& p, std::string const& path)
{
    SegyFile const& f = p.f;
    LibLayout l = to_lib(f.layout);
    return lib([&]() -> std::unique_ptr<OSEGY> {
        if (f.rev == 0) {
            std::string t = p.given_text.empty() ? std::string() : p.given_text[0];
            if (f.default_layout) return std::make_unique<OSEGYRev0>(path, t, p.given);
            return std::make_unique<OSEGYRev0>(path, t, p.given, l);
        }
        if (f.rev == 1) {
            if (f.default_layout) return std::make_unique<OSEGYRev1>(path, p.given_text, p.given);
            return std::make_unique<OSEGYRev1>(path, p.given_text, p.given, l);
        }
        if (f.default_layout) return std::make_unique<OSEGYRev2>(path, p.given_text, p.given, f.stanzas);
        return std::make_unique<OSEGYRev2>(path, p.given_text, p.given, f.stanzas, l);
    });
}

void compare_file(SegyFile const& f, std::string const& got, char const* what)
{
    std::string want = f.encode();
    if (got.size() != want.size())
        violate("file-size: %s: file has %zu bytes, expected %zu", what, got.size(), want.size());
    bool loose = std::any_of(f.tr.begin(), f.tr.end(), [](STrace const& t) { return t.loose; });
    if (!loose && got == want) return;
    size_t pos = 0;
    auto section = [&](std::string const& name, std::string const& w) {
        if (got.compare(pos, w.size(), w)) {
            size_t k = 0;
            while (got[pos + k] == w[k]) ++k;
            violate("file-bytes: %s: %s, byte %zu is 0x%02x, expected 0x%02x", what, name.c_str(), k,
                static_cast<uint8_t>(got[pos + k]), static_cast<uint8_t>(w[k]));
        }
        pos += w.size();
    };
    section("text header", f.text[0]);
    section("binary header", enc_bin_header(f.bh, f.le));
    for (size_t i = 1; i < f.text.size(); ++i) section("extended text header " + std::to_string(i), f.text[i]);
    for (size_t i = 0; i < f.tr.size(); ++i) {
        STrace const& t = f.tr[i];
        std::string n = "trace " + std::to_string(i);
        for (size_t b = 0; b < t.hdr.size(); ++b) section(n + " header block " + std::to_string(b), t.hdr[b]);
        if (!t.loose) {
            section(n + " samples", t.raw);
            continue;
        }
        for (size_t k = 0; k < t.ns; ++k, pos += 4) {
            uint32_t u = static_cast<uint32_t>(get_uint(&got[pos], 4, f.le));
            double w = k < t.smp.size() ? t.smp[k] : 0;
            bool ok = f.bh.format_code == 1 ? ibm_close(w, u) : u32(static_cast<float>(w)) == u;
            if (!ok) violate("file-samples: %s: %s sample %zu is stored as 0x%08x for the value %.17g", what, n.c_str(), k, u, w);
        }
    }
    for (size_t i = 0; i < f.stanzas.size(); ++i) section("trailer stanza " + std::to_string(i), f.stanzas[i]);
}

void session_write_segy(Sim& s, WritePlan const& p, std::string const& path)
{
    if (s.ch.one_in(5)) client_text(p.given_text);
    auto w = open_writer(p, path);
    for (auto& t : p.f.tr) {
        Trace x = to_trace(p.f, t);
        // values for integer fields may be handed over as doubles and vice versa
        if (s.ch.one_in(6))
            for (auto& v : t.vals) {
                if (std::count(t.absent.begin(), t.absent.end(), v.first)) continue;
                if (!v.second.is_double && std::llabs(v.second.i) < (1ll << 50) && v.first != "SAMP_NUM" && v.first != "SAMP_INT")
                    x.header().set(v.first, static_cast<double>(v.second.i));
                else if (v.second.is_double && v.second.d == std::floor(v.second.d) && std::fabs(v.second.d) < 1e15 && v.first != "SAMP_INT")
                    x.header().set(v.first, static_cast<int64_t>(v.second.d));
            }
        lib([&] { w->write_trace(x); });
        s.mix(t.ns);
    }
    lib([&] { w.reset(); });
    compare_file(p.f, s.get(path), "written file");
}
