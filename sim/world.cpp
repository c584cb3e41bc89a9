#include "world.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <set>

namespace w {
using namespace orc;
const char *ELECTION_TYPES[8] = {"unknown", "general", "partisanPrimaryClosed", "partisanPrimaryOpen", "primary", "runoff", "special", "other"};
const char *UNIT_TYPES[29] = {"unknown", "ballotBatch", "ballotStyleArea", "borough", "city", "cityCouncil", "combinedPrecinct", "congressional", "country", "county", "countyCouncil", "dropBox", "judicial", "municipality", "polling_place", "precinct", "school", "special", "splitPrecinct", "state", "stateHouse", "stateSenate", "township", "utility", "village", "voteCenter", "ward", "water", "other"};
const char *VARIATIONS[13] = {"unknown", "one_of_m", "approval", "borda", "cumulative", "majority", "n_of_m", "plurality", "proportional", "range", "rcv", "super_majority", "other"};

S fmt(const char *f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
S str(const V<u8> &v) { return S(v.begin(), v.end()); }
V<u8> vec(const S &s) { return V<u8>(s.begin(), s.end()); }
S iso(u64 sec)
{
    time_t t = (time_t)sec;
    struct tm g;
    gmtime_r(&t, &g);
    char b[64];
    strftime(b, sizeof b, "%FT%TZ", &g);
    return b;
}

// ---------------------------------------------------------------- model hashes
u64 MCon::eff_allowed() const
{
    if (form >= 2)
        return allowed;
    return variation == 6 || variation == 1 ? elected : 0;
}
Z h_text(const MText &t)
{
    V<Z> l;
    for (auto &p : t.langs)
        l.push_back(H().str(p.first).str(p.second).done());
    return H().zlist(l).done();
}
static V<Z> h_ann(const V<std::pair<S, S>> &v)
{
    V<Z> l;
    for (auto &p : v)
        l.push_back(H().str(p.first).str(p.second).done());
    return l;
}
Z h_contact(const MContact &c)
{
    return H().str(c.name).list(c.addr).zlist(h_ann(c.emails)).zlist(h_ann(c.phones)).done();
}
Z h_geo(const MGeo &g)
{
    H h;
    h.str(g.id).str(g.name).str(UNIT_TYPES[g.type]);
    g.c.present ? h.z(h_contact(g.c)) : h.null();
    return h.done();
}
Z h_party(const MParty &p)
{
    H h;
    h.str(p.id);
    MText t = p.name;
    if (p.form != 2)
        t = MText(), t.present = true;
    t.present ? h.z(h_text(t)) : h.null();
    return h.str(p.abbr).str(p.color).str(p.logo).done();
}
Z h_cand(const MCand &c)
{
    H h;
    h.str(c.id);
    MText t = c.name;
    if (c.form < 2)
        t = MText();
    t.present ? h.z(h_text(t)) : h.null();
    return h.str(c.party).str(c.image).done();
}
Z h_style(const MStyle &s) { return H().str(s.id).list(s.geos).list(s.parties).str(s.image).done(); }
Z h_sel(const MSel &s) { return H().str(s.id).u(s.seq).str(s.cand).done(); }
Z h_con(const MCon &c, const V<MSel> &extra)
{
    H h;
    h.str(c.id).u(c.seq).str(c.district).str(VARIATIONS[c.variation]);
    c.title.present && c.form >= 2 ? h.z(h_text(c.title)) : h.null();
    c.subtitle.present && c.form >= 2 ? h.z(h_text(c.subtitle)) : h.null();
    h.str(c.name).u(c.elected).u(c.eff_allowed());
    V<Z> l;
    for (auto &s : c.sels)
        l.push_back(h_sel(s));
    for (auto &s : extra)
        l.push_back(h_sel(s));
    return h.zlist(l).done();
}
Z h_man(const MMan &m)
{
    H h;
    h.str(m.scope).str(ELECTION_TYPES[m.type]).str(iso(m.start)).str(iso(m.end));
    m.full && m.name.present ? h.z(h_text(m.name)) : h.null();
    m.full && m.contact.present ? h.z(h_contact(m.contact)) : h.null();
    V<Z> l;
    for (auto &x : m.geos)
        l.push_back(h_geo(x));
    h.zlist(l);
    l.clear();
    for (auto &x : m.parties)
        l.push_back(h_party(x));
    h.zlist(l);
    l.clear();
    for (auto &x : m.cons)
        l.push_back(h_con(x));
    h.zlist(l);
    l.clear();
    for (auto &x : m.styles)
        l.push_back(h_style(x));
    return h.zlist(l).done();
}
V<MSel> placeholders(const MCon &c)
{
    u64 mx = 0;
    for (auto &s : c.sels)
        mx = std::max(mx, s.seq);
    V<MSel> r;
    for (u64 i = 0; i < c.elected; i++) {
        MSel s;
        s.seq = mx + 1 + i;
        s.id = c.id + "-" + std::to_string(s.seq) + "-placeholder";
        s.cand = c.id + "-" + std::to_string(s.seq) + "-candidate";
        r.push_back(s);
    }
    return r;
}
const MCon *find_con(const MMan &m, const S &id)
{
    for (auto &c : m.cons)
        if (c.id == id)
            return &c;
    return nullptr;
}
V<const MCon *> style_contests(const MMan &m, const S &style)
{
    V<const MCon *> r;
    for (auto &s : m.styles)
        if (s.id == style)
            for (auto &c : m.cons)
                if (std::count(s.geos.begin(), s.geos.end(), c.district))
                    r.push_back(&c);
    std::sort(r.begin(), r.end(), [](const MCon *a, const MCon *b) { return a->seq < b->seq; });
    return r;
}

// ---------------------------------------------------------------- generation
S gen_text(Rng &r, bool wild, size_t maxlen)
{
    static const char *W[] = {"\"", "\\", "\n", "\t", "|", "null", "é", "字", "😀", "{", "}", ":", ",", "0", "00", " ", "'", "<", "&", "%s", "\x01", "\x7f", "[", "]", "A", "/", "\r"};
    size_t n = 1 + r.below(maxlen);
    S s;
    while (s.size() < n) {
        if (wild && r.chance(0.3))
            s += W[r.below(sizeof W / sizeof *W)];
        else
            s += (char)('a' + r.below(26));
    }
    return s;
}
static MText gen_mtext(Rng &r, bool wild)
{
    MText t;
    t.present = true;
    for (u64 i = 0, n = r.range(1, 2); i < n; i++)
        t.langs.push_back({gen_text(r, wild), i ? "es" : "en"});
    return t;
}
static MContact gen_contact(Rng &r, bool wild)
{
    MContact c;
    c.present = true;
    c.form = (int)r.below(4);
    c.name = gen_text(r, wild);
    if (c.form >= 1)
        for (u64 i = 0, n = r.range(1, 2); i < n; i++)
            c.addr.push_back(gen_text(r, wild));
    if (c.form >= 2)
        for (u64 i = 0, n = r.range(1, 2); i < n; i++)
            c.phones.push_back({gen_text(r, wild), gen_text(r, wild)});
    if (c.form >= 3)
        for (u64 i = 0, n = r.range(1, 2); i < n; i++)
            c.emails.push_back({gen_text(r, wild), gen_text(r, wild)});
    return c;
}
MMan gen_manifest(Rng &r, const GenOpt &o)
{
    MMan m;
    bool wild = o.wild_text;
    auto id = [&](const char *p, u64 i) { return S(p) + std::to_string(i) + (r.chance(0.2) ? "-" + gen_text(r, wild, 5) : ""); };
    m.scope = "election-" + gen_text(r, wild, 8);
    m.type = (int)r.range(1, 7);
    m.start = 1600000000 + r.below(50000000);
    m.end = m.start + r.below(1000000);
    int ng = (int)r.range(1, 3);
    for (int i = 0; i < ng; i++) {
        MGeo g;
        g.id = id("geo", i);
        g.name = gen_text(r, wild);
        g.type = (int)r.range(1, 28);
        if (o.rich && r.chance(0.5))
            g.c = gen_contact(r, wild);
        m.geos.push_back(g);
    }
    int np = (int)r.range(o.rich ? 0 : 1, 2);
    for (int i = 0; i < np; i++) {
        MParty p;
        p.id = id("party", i);
        p.form = o.rich ? (int)r.below(4) : 2;
        if (p.form == 2)
            p.name = gen_mtext(r, wild);
        if (p.form >= 1)
            p.abbr = gen_text(r, wild, 4);
        if (p.form >= 2)
            p.color = gen_text(r, false, 6), p.logo = gen_text(r, wild);
        m.parties.push_back(p);
    }
    int nc = (int)r.range(1, o.max_con);
    V<u64> seqs;
    for (int i = 0; i < nc; i++)
        seqs.push_back(r.chance(0.8) ? (u64)i + (r.chance(0.15) ? 0 : 1) : i + 1 + r.below(3) * 7);
    std::sort(seqs.begin(), seqs.end());
    for (size_t i = 1; i < seqs.size(); i++)
        if (seqs[i] <= seqs[i - 1])
            seqs[i] = seqs[i - 1] + 1;
    if (r.chance(0.4))
        for (size_t i = seqs.size(); i > 1; i--)
            std::swap(seqs[i - 1], seqs[r.below(i)]);
    u64 candn = 0;
    for (int i = 0; i < nc; i++) {
        MCon c;
        c.id = id("contest", i);
        c.district = m.geos[r.below(m.geos.size())].id;
        c.seq = seqs[i];
        c.name = gen_text(r, wild);
        int ns = (int)r.range(1, o.max_sel);
        c.elected = r.range(1, std::min<u64>(ns, o.max_elected));
        c.variation = c.elected == 1 && r.chance(0.5) ? 1 : 6;
        if (o.rich) {
            c.form = (int)r.below(4);
        } else
            c.form = r.chance(0.5) ? 0 : 2;
        if (c.form >= 2) {
            c.allowed = r.chance(0.7) ? c.elected : r.chance(0.3) ? 0 : r.range(1, c.elected);
            if (r.chance(0.8) || !o.rich)
                c.title = gen_mtext(r, wild);
            if (r.chance(0.8) || !o.rich)
                c.subtitle = gen_mtext(r, wild);
        }
        if (c.form & 1)
            for (auto &p : m.parties)
                c.primary.push_back(p.id);
        V<u64> ss;
        u64 base = r.chance(0.3) ? 0 : 1;
        for (int j = 0; j < ns; j++)
            ss.push_back(base + j + (r.chance(0.1) && j == ns - 1 ? r.below(9) : 0));
        if (r.chance(0.4))
            for (size_t k = ss.size(); k > 1; k--)
                std::swap(ss[k - 1], ss[r.below(k)]);
        for (int j = 0; j < ns; j++) {
            MCand k;
            k.id = id("cand", candn++);
            k.form = o.rich ? (int)r.below(5) : 4;
            if (k.form >= 2)
                k.name = gen_mtext(r, wild);
            if ((k.form == 1 || k.form >= 3) && m.parties.size())
                k.party = m.parties[r.below(m.parties.size())].id;
            if (k.form == 4)
                k.image = gen_text(r, wild);
            k.writein = o.writeins && r.chance(0.35);
            m.cands.push_back(k);
            MSel s;
            s.id = c.id + "-sel" + std::to_string(j);
            s.cand = k.id;
            s.seq = ss[j];
            c.sels.push_back(s);
        }
        m.cons.push_back(c);
    }
    int nst = (int)r.range(1, o.max_style);
    for (int i = 0; i < nst; i++) {
        MStyle s;
        s.id = id("style", i);
        for (auto &g : m.geos)
            if (i == 0 || r.chance(0.6))
                s.geos.push_back(g.id);
        if (s.geos.empty())
            s.geos.push_back(m.cons[0].district);
        s.full = o.rich && r.chance(0.5);
        if (s.full) {
            for (auto &p : m.parties)
                s.parties.push_back(p.id);
            s.image = gen_text(r, wild);
        }
        m.styles.push_back(s);
    }
    m.full = o.rich ? r.chance(0.7) : r.chance(0.5);
    if (m.full) {
        m.name = gen_mtext(r, wild);
        m.contact = gen_contact(r, wild);
        if (o.rich && r.chance(0.2))
            m.contact.present = false;
        else if (o.rich && r.chance(0.2))
            m.name.present = false;
    }
    return m;
}
VBal gen_ballot(Rng &r, const MMan &m, const S &id, const BalOpt &o)
{
    VBal b;
    b.id = id;
    for (int t = 0; t < 8; t++) {
        b.style = m.styles[r.below(m.styles.size())].id;
        if (style_contests(m, b.style).size())
            break;
        b.style = m.styles[0].id;
    }
    for (auto *c : style_contests(m, b.style)) {
        if (r.chance(o.p_skip_con))
            continue;
        VCon v;
        v.id = c->id;
        u64 n = c->sels.size(), lim = c->eff_allowed() ? std::min(c->eff_allowed(), c->elected) : c->elected;
        u64 want;
        if (n > lim && r.chance(o.p_over))
            want = r.range(lim + 1, n);
        else if (r.chance(o.p_under))
            want = r.below(lim + 1);
        else
            want = std::min(lim, n);
        V<size_t> ix(n);
        for (size_t i = 0; i < n; i++)
            ix[i] = i;
        for (size_t i = n; i > 1; i--)
            std::swap(ix[i - 1], ix[r.below(i)]);
        std::set<size_t> yes(ix.begin(), ix.begin() + want);
        for (size_t i = 0; i < n; i++) {
            bool y = yes.count(i);
            if (!y && r.chance(o.p_missing))
                continue;
            VSel s;
            s.id = c->sels[i].id;
            s.vote = y;
            if (r.chance(y ? 0.8 : 0.1))
                for (auto &k : m.cands)
                    if (k.id == c->sels[i].cand && k.writein)
                        s.writein = gen_text(r, o.wild, r.chance(0.1) ? o.max_writein * 8 : o.max_writein);
            v.sels.push_back(s);
        }
        if (r.chance(o.p_shuffle))
            for (size_t i = v.sels.size(); i > 1; i--)
                std::swap(v.sels[i - 1], v.sels[r.below(i)]);
        b.cons.push_back(v);
    }
    if (r.chance(o.p_shuffle))
        for (size_t i = b.cons.size(); i > 1; i--)
            std::swap(b.cons[i - 1], b.cons[r.below(i)]);
    return b;
}
S json_str(const S &s)
{
    S o = "\"";
    for (unsigned char ch : s) {
        switch (ch) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\b': o += "\\b"; break;
        case '\f': o += "\\f"; break;
        case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break;
        case '\t': o += "\\t"; break;
        default:
            if (ch < 0x20)
                o += fmt("\\u%04x", ch);
            else
                o += (char)ch;
        }
    }
    return o + "\"";
}
V<ECon> expect(const MMan &m, const VBal &b)
{
    V<ECon> out;
    for (auto *c : style_contests(m, b.style)) {
        ECon e;
        e.id = c->id;
        e.seq = c->seq;
        e.elected = c->elected;
        e.sels = c->sels;
        std::sort(e.sels.begin(), e.sels.end(), [](const MSel &x, const MSel &y) { return x.seq < y.seq; });
        e.nreal = e.sels.size();
        const VCon *v = nullptr;
        for (auto &x : b.cons)
            if (x.id == c->id) {
                v = &x;
                break;
            }
        V<u64> votes(e.nreal, 0);
        V<S> wi(e.nreal);
        u64 cnt = 0, sum = 0;
        for (size_t i = 0; i < e.nreal; i++)
            if (v)
                for (auto &s : v->sels)
                    if (s.id == e.sels[i].id) {
                        votes[i] = s.vote;
                        wi[i] = s.writein;
                        break;
                    }
        for (u64 x : votes)
            cnt += x >= 1, sum += x;
        u64 allowed = c->eff_allowed() ? c->eff_allowed() : c->elected;
        e.over = cnt > c->elected || sum > allowed;
        S ext;
        if (e.over) {
            ext = "\"error\":\"overvote\",\"error_data\":";
            S l;
            for (size_t i = 0; i < e.nreal; i++)
                if (votes[i] == 1)
                    l += (l.size() ? "," : "") + json_str(e.sels[i].id);
            ext += l.empty() ? "null" : "[" + l + "]";
        }
        std::map<S, S> ws;
        for (size_t i = 0; i < e.nreal; i++)
            if (votes[i] == 1)
                for (auto &k : m.cands)
                    if (k.id == e.sels[i].cand && k.writein)
                        ws[e.sels[i].id] = wi[i];
        if (ws.size()) {
            S l;
            for (auto &p : ws)
                l += (l.size() ? "," : "") + json_str(p.first) + ":" + json_str(p.second);
            ext += (ext.size() ? "," : "") + S("\"write_ins\":{") + l + "}";
        }
        e.ext = ext.empty() ? "" : "{" + ext + "}";
        u64 total = 0;
        for (size_t i = 0; i < e.nreal; i++) {
            e.votes.push_back(e.over ? 0 : (int)votes[i]);
            total += e.votes.back();
        }
        for (auto &p : placeholders(*c)) {
            e.sels.push_back(p);
            e.votes.push_back(e.over ? 1 : total < c->elected ? 1 : 0);
            if (!e.over && total < c->elected)
                total++;
        }
        out.push_back(e);
    }
    return out;
}

// ---------------------------------------------------------------- library objects
Z zp(const eg::ElementModP &e)
{
    Z z;
    mpz_import(z.get_mpz_t(), 64, -1, 8, 0, 0, e.get());
    return z;
}
Z zq(const eg::ElementModQ &e)
{
    Z z;
    mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, e.get());
    return z;
}
UP<eg::ElementModP> mkp(const Z &z)
{
    uint64_t a[64] = {0};
    size_t n = 0;
    mpz_export(a, &n, -1, 8, 0, 0, z.get_mpz_t());
    return std::make_unique<eg::ElementModP>(a, true);
}
UP<eg::ElementModQ> mkq(const Z &z)
{
    uint64_t a[4] = {0};
    size_t n = 0;
    mpz_export(a, &n, -1, 8, 0, 0, z.get_mpz_t());
    return std::make_unique<eg::ElementModQ>(a, true);
}
UP<eg::InternationalizedText> mk(const MText &t)
{
    if (!t.present)
        return nullptr;
    V<UP<eg::Language>> v;
    for (auto &p : t.langs)
        v.push_back(std::make_unique<eg::Language>(p.first, p.second));
    return std::make_unique<eg::InternationalizedText>(std::move(v));
}
static V<UP<eg::AnnotatedString>> mka(const V<std::pair<S, S>> &a)
{
    V<UP<eg::AnnotatedString>> v;
    for (auto &p : a)
        v.push_back(std::make_unique<eg::AnnotatedString>(p.first, p.second));
    return v;
}
UP<eg::ContactInformation> mk(const MContact &c)
{
    if (!c.present)
        return nullptr;
    switch (c.form) {
    case 0: return std::make_unique<eg::ContactInformation>(c.name);
    case 1: return std::make_unique<eg::ContactInformation>(c.addr, c.name);
    case 2: return std::make_unique<eg::ContactInformation>(c.addr, mka(c.phones), c.name);
    default: return std::make_unique<eg::ContactInformation>(c.addr, mka(c.emails), mka(c.phones), c.name);
    }
}
UP<eg::GeopoliticalUnit> mk(const MGeo &g)
{
    if (!g.c.present)
        return std::make_unique<eg::GeopoliticalUnit>(g.id, g.name, (eg::ReportingUnitType)g.type);
    return std::make_unique<eg::GeopoliticalUnit>(g.id, g.name, (eg::ReportingUnitType)g.type, mk(g.c));
}
UP<eg::Party> mk(const MParty &p)
{
    switch (p.form) {
    case 0: return std::make_unique<eg::Party>(p.id);
    case 1: return std::make_unique<eg::Party>(p.id, p.abbr);
    case 2: return std::make_unique<eg::Party>(p.id, mk(p.name), p.abbr, p.color, p.logo);
    default: return std::make_unique<eg::Party>(p.id, p.abbr, p.color, p.logo);
    }
}
UP<eg::Candidate> mk(const MCand &c)
{
    switch (c.form) {
    case 0: return std::make_unique<eg::Candidate>(c.id, c.writein);
    case 1: return std::make_unique<eg::Candidate>(c.id, c.party, c.writein);
    case 2: return std::make_unique<eg::Candidate>(c.id, mk(c.name), c.writein);
    case 3: return std::make_unique<eg::Candidate>(c.id, mk(c.name), c.party, c.writein);
    default: return std::make_unique<eg::Candidate>(c.id, mk(c.name), c.party, c.image, c.writein);
    }
}
UP<eg::BallotStyle> mk(const MStyle &s)
{
    if (s.full)
        return std::make_unique<eg::BallotStyle>(s.id, s.geos, s.parties, s.image);
    return std::make_unique<eg::BallotStyle>(s.id, s.geos);
}
UP<eg::SelectionDescription> mk(const MSel &s) { return std::make_unique<eg::SelectionDescription>(s.id, s.cand, s.seq); }
UP<eg::ContestDescription> mk(const MCon &c)
{
    V<UP<eg::SelectionDescription>> s;
    for (auto &x : c.sels)
        s.push_back(mk(x));
    auto v = (eg::VoteVariationType)c.variation;
    switch (c.form) {
    case 0: return std::make_unique<eg::ContestDescription>(c.id, c.district, c.seq, v, c.elected, c.name, std::move(s));
    case 1: return std::make_unique<eg::ContestDescription>(c.id, c.district, c.seq, v, c.elected, c.name, std::move(s), c.primary);
    case 2: return std::make_unique<eg::ContestDescription>(c.id, c.district, c.seq, v, c.elected, c.allowed, c.name, mk(c.title), mk(c.subtitle), std::move(s));
    default: return std::make_unique<eg::ContestDescription>(c.id, c.district, c.seq, v, c.elected, c.allowed, c.name, mk(c.title), mk(c.subtitle), std::move(s), c.primary);
    }
}
UP<eg::Manifest> mk(const MMan &m)
{
    V<UP<eg::GeopoliticalUnit>> g;
    V<UP<eg::Party>> p;
    V<UP<eg::Candidate>> k;
    V<UP<eg::ContestDescription>> c;
    V<UP<eg::BallotStyle>> s;
    for (auto &x : m.geos) g.push_back(mk(x));
    for (auto &x : m.parties) p.push_back(mk(x));
    for (auto &x : m.cands) k.push_back(mk(x));
    for (auto &x : m.cons) c.push_back(mk(x));
    for (auto &x : m.styles) s.push_back(mk(x));
    auto t0 = std::chrono::system_clock::from_time_t((time_t)m.start), t1 = std::chrono::system_clock::from_time_t((time_t)m.end);
    if (m.full)
        return std::make_unique<eg::Manifest>(m.scope, (eg::ElectionType)m.type, t0, t1, std::move(g), std::move(p), std::move(k), std::move(c), std::move(s), mk(m.name), mk(m.contact));
    return std::make_unique<eg::Manifest>(m.scope, (eg::ElectionType)m.type, t0, t1, std::move(g), std::move(p), std::move(k), std::move(c), std::move(s));
}
UP<eg::PlaintextBallot> mk(const VBal &b)
{
    V<UP<eg::PlaintextBallotContest>> c;
    for (auto &x : b.cons) {
        V<UP<eg::PlaintextBallotSelection>> s;
        for (auto &y : x.sels)
            s.push_back(std::make_unique<eg::PlaintextBallotSelection>(y.id, y.vote, false, y.writein));
        c.push_back(std::make_unique<eg::PlaintextBallotContest>(x.id, std::move(s)));
    }
    return std::make_unique<eg::PlaintextBallot>(b.id, b.style, std::move(c));
}
static Z oq(const eg::ElementModQ *e) { return e ? zq(*e) : Z(0); }
Sel ex(eg::CiphertextBallotSelection &s)
{
    Sel o;
    o.id = s.getObjectId();
    o.seq = s.getSequenceOrder();
    o.desc = oq(s.getDescriptionHash());
    if (auto *c = s.getCiphertext()) {
        o.pad = zp(*c->getPad());
        o.data = zp(*c->getData());
    }
    o.hash = oq(s.getCryptoHash());
    o.has_nonce = s.getNonce() != nullptr;
    o.nonce = oq(s.getNonce());
    o.placeholder = s.getIsPlaceholder();
    if (auto *p = s.getProof()) {
        o.has_proof = true;
        o.zp = zp(*p->getProofZeroPad());
        o.zd = zp(*p->getProofZeroData());
        o.op = zp(*p->getProofOnePad());
        o.od = zp(*p->getProofOneData());
        o.c0 = oq(p->getProofZeroChallenge());
        o.c1 = oq(p->getProofOneChallenge());
        o.c = oq(p->getChallenge());
        o.v0 = oq(p->getProofZeroResponse());
        o.v1 = oq(p->getProofOneResponse());
    }
    return o;
}
Con ex(const eg::CiphertextBallotContest &c)
{
    Con o;
    o.id = c.getObjectId();
    o.seq = c.getSequenceOrder();
    o.desc = oq(c.getDescriptionHash());
    o.hash = oq(c.getCryptoHash());
    o.has_nonce = c.getNonce() != nullptr;
    o.nonce = oq(c.getNonce());
    if (auto *a = c.getCiphertextAccumulation()) {
        o.has_acc = true;
        o.accp = zp(*a->getPad());
        o.accd = zp(*a->getData());
    }
    if (auto *p = c.getProof()) {
        o.has_proof = true;
        o.pp = zp(*p->getPad());
        o.pd = zp(*p->getData());
        o.pc = oq(p->getChallenge());
        o.pv = oq(p->getResponse());
        o.pconst = p->getConstant();
    }
    if (auto h = c.getHashedElGamalCiphertext()) {
        o.has_ext = true;
        o.hpad = zp(*h->getPad());
        o.hdata = str(h->getData());
        o.hmac = str(h->getMac());
    }
    for (auto &s : c.getSelections())
        o.sels.push_back(ex(s.get()));
    return o;
}
Bal ex(const eg::CiphertextBallot &b)
{
    Bal o;
    o.id = b.getObjectId();
    o.style = b.getStyleId();
    o.mhash = oq(b.getManifestHash());
    o.seed = oq(b.getBallotCodeSeed());
    o.code = oq(b.getBallotCode());
    o.hash = oq(b.getCryptoHash());
    o.has_nonce = b.getNonce() != nullptr;
    o.nonce = oq(b.getNonce());
    o.ts = b.getTimestamp();
    for (auto &c : b.getContests())
        o.cons.push_back(ex(c.get()));
    return o;
}
Bal ex(const eg::SubmittedBallot &b)
{
    Bal o = ex((const eg::CiphertextBallot &)b);
    o.state = (int)b.getState();
    return o;
}
VBal ex(const eg::PlaintextBallot &b)
{
    VBal v;
    v.id = b.getObjectId();
    v.style = b.getStyleId();
    for (auto &c : b.getContests()) {
        VCon k;
        k.id = c.get().getObjectId();
        for (auto &s : c.get().getSelections())
            k.sels.push_back({s.get().getObjectId(), s.get().getVote(), s.get().getWriteIn()});
        v.cons.push_back(k);
    }
    return v;
}
static MText ext(eg::InternationalizedText *t)
{
    MText o;
    if (!t)
        return o;
    o.present = true;
    for (auto &l : t->getText())
        o.langs.push_back({l.get().getValue(), l.get().getLanguage()});
    return o;
}
static MContact ext(eg::ContactInformation *c)
{
    MContact o;
    if (!c)
        return o;
    o.present = true;
    o.name = c->getName();
    o.addr = c->getAddressLine();
    for (auto &a : c->getEmail())
        o.emails.push_back({a.get().getAnnotation(), a.get().getValue()});
    for (auto &a : c->getPhone())
        o.phones.push_back({a.get().getAnnotation(), a.get().getValue()});
    return o;
}
template <class M> static void ex_common(const M &m, MMan &o)
{
    for (auto &g : m.getGeopoliticalUnits()) {
        MGeo x;
        x.id = g.get().getObjectId();
        x.name = g.get().getName();
        x.type = (int)g.get().getType();
        x.c = ext(g.get().getContactInformation());
        o.geos.push_back(x);
    }
    for (auto &p : m.getCandidates()) {
        MCand x;
        x.id = p.get().getObjectId();
        x.name = ext(p.get().getName());
        x.party = p.get().getPartyId();
        x.image = p.get().getImageUri();
        x.writein = p.get().isWriteIn();
        o.cands.push_back(x);
    }
    for (auto &p : m.getContests()) {
        auto &c = p.get();
        MCon x;
        x.form = 2;
        x.id = c.getObjectId();
        x.district = c.getElectoralDistrictId();
        x.seq = c.getSequenceOrder();
        x.variation = (int)c.getVoteVariation();
        x.elected = c.getNumberElected();
        x.allowed = c.getVotesAllowed();
        x.name = c.getName();
        x.title = ext(c.getBallotTitle());
        x.subtitle = ext(c.getBallotSubtitle());
        for (auto &s : c.getSelections())
            x.sels.push_back({s.get().getObjectId(), s.get().getCandidateId(), s.get().getSequenceOrder()});
        o.cons.push_back(x);
    }
    for (auto &p : m.getBallotStyles()) {
        MStyle x;
        x.full = true;
        x.id = p.get().getObjectId();
        x.geos = p.get().getGeopoliticalUnitIds();
        x.parties = p.get().getPartyIds();
        x.image = p.get().getImageUri();
        o.styles.push_back(x);
    }
}
MMan ex(const eg::Manifest &m)
{
    MMan o;
    o.scope = m.getElectionScopeId();
    o.type = (int)m.getElectionType();
    o.start = (u64)std::chrono::system_clock::to_time_t(m.getStartDate());
    o.end = (u64)std::chrono::system_clock::to_time_t(m.getEndDate());
    o.full = true;
    o.name = ext(m.getName());
    o.contact = ext(m.getContactInformation());
    ex_common(m, o);
    for (auto &p : m.getParties()) {
        MParty x;
        x.id = p.get().getObjectId();
        x.name = ext(p.get().getName());
        x.abbr = p.get().getAbbreviation();
        x.color = p.get().getColor();
        x.logo = p.get().getLogoUri();
        o.parties.push_back(x);
    }
    return o;
}
// observable content as text (absent optional text and empty text are the same to a reader of the object)
static S d_text(const MText &t)
{
    S s = "[";
    if (t.present)
    for (auto &p : t.langs)
        s += json_str(p.first) + json_str(p.second);
    return s + "]";
}
static S d_contact(const MContact &c)
{
    if (!c.present)
        return "-";
    S s = "{" + json_str(c.name);
    for (auto &a : c.addr)
        s += "a" + json_str(a);
    for (auto &a : c.emails)
        s += "e" + json_str(a.first) + json_str(a.second);
    for (auto &a : c.phones)
        s += "p" + json_str(a.first) + json_str(a.second);
    return s + "}";
}
V<S> describe_man(const MMan &m)
{
    V<S> o;
    o.push_back("scope " + json_str(m.scope));
    o.push_back(fmt("type %d start %lu end %lu", m.type, m.start, m.end));
    o.push_back("name " + d_text(m.full ? m.name : MText()));
    o.push_back("contact " + d_contact(m.full ? m.contact : MContact()));
    for (auto &g : m.geos)
        o.push_back("geo " + json_str(g.id) + json_str(g.name) + fmt("%d", g.type) + d_contact(g.c));
    for (auto &p : m.parties)
        o.push_back("party " + json_str(p.id) + d_text(p.name) + json_str(p.abbr) + json_str(p.color) + json_str(p.logo));
    for (auto &p : m.cands)
        o.push_back("candidate " + json_str(p.id) + d_text(p.name) + json_str(p.party) + json_str(p.image) + (p.writein ? "w" : ""));
    auto cons = m.cons; // readers get them sorted
    std::stable_sort(cons.begin(), cons.end(), [](const MCon &a, const MCon &b) { return a.seq < b.seq; });
    for (auto &c : cons) {
        S s = "contest " + json_str(c.id) + json_str(c.district) + fmt("%lu %d %lu %lu", c.seq, c.variation, c.elected, c.eff_allowed()) + json_str(c.name) + d_text(c.form >= 2 ? c.title : MText()) + d_text(c.form >= 2 ? c.subtitle : MText());
        auto v = c.sels;
        std::sort(v.begin(), v.end(), [](const MSel &a, const MSel &b) { return a.seq < b.seq; });
        for (auto &x : v)
            s += json_str(x.id) + json_str(x.cand) + std::to_string(x.seq);
        o.push_back(s);
    }
    for (auto &p : m.styles) {
        S s = "style " + json_str(p.id);
        for (auto &g : p.geos)
            s += "g" + json_str(g);
        for (auto &g : p.parties)
            s += "p" + json_str(g);
        o.push_back(s + json_str(p.image));
    }
    return o;
}
V<S> describe_im(const eg::InternalManifest &m)
{
    MMan o;
    ex_common(m, o);
    auto v = describe_man(o);
    v.erase(v.begin(), v.begin() + 4);
    return v;
}
bool same(const MMan &a, const MMan &b, S &why)
{
    auto x = describe_man(a), y = describe_man(b);
    for (size_t i = 0; i < std::max(x.size(), y.size()); i++)
        if (i >= x.size() || i >= y.size() || x[i] != y[i]) {
            why = "was: " + (i < x.size() ? x[i] : S("(none)")) + " now: " + (i < y.size() ? y[i] : S("(none)"));
            return false;
        }
    return true;
}
bool same(const VBal &a, const VBal &b, S &why)
{
    auto d = [](const VBal &v) {
        S s = json_str(v.id) + json_str(v.style);
        for (auto &c : v.cons) {
            s += " c" + json_str(c.id);
            for (auto &x : c.sels)
                s += " s" + json_str(x.id) + std::to_string(x.vote) + json_str(x.writein);
        }
        return s;
    };
    S x = d(a), y = d(b);
    if (x != y)
        why = "was: " + x.substr(0, 600) + " now: " + y.substr(0, 600);
    return x == y;
}

// ---------------------------------------------------------------- election
static Key keys[NKEY];
void init_keys()
{
    init();
    for (int i = 0; i < NKEY; i++) {
        keys[i].s = modq(from_bytes(sha256("sim secret key " + std::to_string(i))));
        if (i == 3)
            keys[i].s = 2; // a tiny secret: unusual public key
        keys[i].K = gpow(keys[i].s);
        keys[i].fb.build(keys[i].K);
    }
}
const Key &key(int i) { return keys[i]; }
Election gen_election(Rng &r, const GenOpt &o)
{
    Election e;
    e.m = gen_manifest(r, o);
    e.ki = (int)r.below(NKEY);
    auto &k = key(e.ki);
    e.c.s = k.s;
    e.c.K = k.K;
    e.c.fbK = &k.fb;
    e.c.n = r.range(1, 5);
    e.c.k = r.range(1, e.c.n);
    e.c.mhash = h_man(e.m);
    e.c.commit = modq(from_bytes(sha256("commitment" + std::to_string(r.next()))));
    e.c.base = H().z(P).z(Q).z(G).u(e.c.n).u(e.c.k).z(e.c.mhash).done();
    e.c.ext = H().z(e.c.base).z(e.c.commit).done();
    return e;
}
UP<eg::CiphertextElectionContext> mkctx(const Ctx &c, bool fixed, bool hexmake)
{
    if (hexmake)
        return eg::CiphertextElectionContext::make(c.n, c.k, hex(c.K), hex(c.commit), hex(c.mhash));
    auto k = mkp(c.K);
    k->setIsFixedBase(fixed);
    return eg::CiphertextElectionContext::make(c.n, c.k, std::move(k), mkq(c.commit), mkq(c.mhash));
}
void build(Election &e, bool fixed, bool hexmake)
{
    e.man = mk(e.m);
    e.im = std::make_unique<eg::InternalManifest>(*e.man);
    e.ctx = mkctx(e.c, fixed, hexmake);
}

// ---------------------------------------------------------------- oracles
S check_ids(const MMan &m, const VBal &v, const Bal &b, const Ctx &c)
{
    if (b.id != v.id || b.style != v.style)
        return "ballot id or style differs";
    if (b.mhash != c.mhash)
        return "manifest hash of the ballot is not the election's";
    auto e = expect(m, v);
    if (e.size() != b.cons.size())
        return fmt("ballot has %zu contests, its style has %zu", b.cons.size(), e.size());
    for (size_t i = 0; i < e.size(); i++) {
        auto &x = e[i];
        auto &y = b.cons[i];
        if (x.id != y.id || x.seq != y.seq)
            return "contest " + x.id + " missing, out of order or mislabelled (found " + y.id + ")";
        if (x.sels.size() != y.sels.size())
            return fmt("contest %s has %zu encrypted selections instead of %zu", x.id.c_str(), y.sels.size(), x.sels.size());
        if (y.desc != h_con(*find_con(m, x.id)))
            return "contest " + x.id + ": description hash wrong";
        for (size_t j = 0; j < x.sels.size(); j++) {
            auto &s = y.sels[j];
            if (s.id != x.sels[j].id || s.seq != x.sels[j].seq)
                return "selection " + x.sels[j].id + " missing or mislabelled (found " + s.id + ")";
            if (s.placeholder != (j >= x.nreal))
                return "selection " + s.id + ": placeholder flag wrong";
            if (s.desc != h_sel(x.sels[j]))
                return "selection " + s.id + ": description hash wrong";
        }
        if (y.pconst != x.elected)
            return fmt("contest %s proves %lu votes instead of %lu", x.id.c_str(), y.pconst, x.elected);
    }
    return "";
}
S check_choices(const MMan &m, const VBal &v, const Bal &b, const Ctx &c)
{
    S r = check_ids(m, v, b, c);
    if (r.size())
        return r;
    auto e = expect(m, v);
    for (size_t i = 0; i < e.size(); i++) {
        int64_t tot = 0;
        for (size_t j = 0; j < e[i].sels.size(); j++) {
            auto &s = b.cons[i].sels[j];
            int64_t d = decrypt(s.pad, s.data, c, 4);
            if (d != e[i].votes[j])
                return fmt("contest %s selection %s decrypts to %ld, the voter's choice is %d%s", e[i].id.c_str(), s.id.c_str(), (long)d, e[i].votes[j], e[i].over ? " (overvoted contest)" : "");
            tot += d;
        }
        if (tot != (int64_t)e[i].elected)
            return fmt("contest %s adds up to %ld instead of %lu", e[i].id.c_str(), (long)tot, e[i].elected);
        int64_t a = decrypt(b.cons[i].accp, b.cons[i].accd, c, 16);
        if (a != tot)
            return fmt("contest %s: accumulation decrypts to %ld instead of %ld", e[i].id.c_str(), (long)a, (long)tot);
    }
    return "";
}
S check_ext(const MMan &m, const VBal &v, const Bal &b, const Ctx &c)
{
    auto e = expect(m, v);
    if (e.size() != b.cons.size())
        return "contest count";
    for (size_t i = 0; i < e.size(); i++) {
        auto &y = b.cons[i];
        S at = " (contest " + y.id + ")";
        if (!y.has_ext)
            return "sealed data missing" + at;
        if (y.hdata.size() != 512)
            return fmt("sealed data has %zu bytes instead of 512", y.hdata.size()) + at;
        S out;
        if (!open_sealed(y.hpad, y.hdata, y.hmac, c.s, c.ext, out))
            return "sealed data does not open under the election key" + at;
        S want = e[i].ext.substr(0, 510);
        if (out != want)
            return "sealed data opens to '" + out.substr(0, 200) + "' instead of '" + want.substr(0, 200) + "'" + at;
    }
    return "";
}
static Z nonce_at(const Z &seed, const Z &header, u64 i)
{
    Z s = H().z(seed).z(header).done();
    return H().z(s).u(i).done();
}
S check_nonces(const MMan &m, const VBal &v, const Bal &b, const Ctx &c, bool derived)
{
    if (!b.has_nonce)
        return "ballot nonce missing";
    Z ns = H().z(c.mhash).str(b.id).z(b.nonce).done();
    for (auto &k : b.cons) {
        const MCon *mc = find_con(m, k.id);
        if (!mc)
            return "unknown contest";
        Z cn = nonce_at(h_con(*mc), ns, k.seq);
        if (!k.has_nonce || k.nonce != cn)
            return "contest " + k.id + ": nonce does not follow the specified derivation";
        for (auto &s : k.sels) {
            if (!s.has_nonce)
                return "selection " + s.id + ": nonce missing";
            if (gpow(s.nonce) != s.pad)
                return "selection " + s.id + ": kept nonce does not open its ciphertext";
            if (derived && s.nonce != nonce_at(s.desc, cn, s.seq))
                return "selection " + s.id + ": nonce does not follow the specified derivation";
        }
    }
    (void)v;
    return "";
}

// ---------------------------------------------------------------- disk
Disk *disk = nullptr;
void disk_reset()
{
    disk->n = disk->used = disk->nh = disk->nt = 0;
    memset(disk->rec, 0, sizeof disk->rec);
}
int disk_write(const S &name, const S &bytes)
{
    if (disk->n >= Disk::MAXREC || disk->used + bytes.size() + 64 > Disk::CAP || name.size() >= 56)
        return -1;
    auto &r = disk->rec[disk->n];
    strcpy(r.name, name.c_str());
    r.off = disk->used;
    r.len = (u32)bytes.size();
    memcpy(disk->data + r.off, bytes.data(), bytes.size());
    disk->used += r.len;
    r.synced = r.damaged = 0;
    r.alive = r.complete = 1;
    return (int)disk->n++;
}
void disk_sync(int i)
{
    if (i >= 0)
        disk->rec[i].synced = 1;
}
void disk_crash()
{
    // called by the restarted incarnation before reading: decides the fate of unsynced records
    for (u32 i = 0; i < disk->n; i++) {
        auto &r = disk->rec[i];
        if (r.synced || !r.alive)
            continue;
        u64 arg;
        if (sim::plan(sim::F_DISK_LOST, 0.4, 1, &arg)) {
            sim::fired(sim::F_DISK_LOST);
            r.alive = 0;
        } else if (r.len > 1 && sim::plan(sim::F_DISK_TORN, 0.5, r.len - 1, &arg)) {
            sim::fired(sim::F_DISK_TORN);
            r.len = (u32)(arg % r.len);
            r.damaged = 1;
        }
        r.synced = 1;
    }
}
bool disk_read(const S &name, S &out, bool *damaged)
{
    for (u32 i = disk->n; i-- > 0;) {
        auto &r = disk->rec[i];
        if (r.alive && name == r.name) {
            out.assign((char *)disk->data + r.off, r.len);
            if (damaged)
                *damaged = r.damaged;
            return true;
        }
    }
    return false;
}
void note(u64 a, u64 b, u64 c)
{
    if (disk->nh + 3 <= 4096) {
        disk->hist[disk->nh] = a;
        disk->hist[disk->nh + 1] = b;
        disk->hist[disk->nh + 2] = c;
        disk->nh += 3;
    }
}
} // namespace w
