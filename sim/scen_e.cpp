// Election identity: every party derives the same hashes (P17)
#include "art.h"
#include <algorithm>
#include <cstring>
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/collections.h>
#include <electionguard/election.h>
#include <electionguard/encrypt.h>
#include <electionguard/group.h>
#include <electionguard/manifest.h>
}
#include <electionguard/hash.hpp>
#include <map>
namespace scen {
static char *cs(const S &s) { return const_cast<char *>(s.c_str()); }
static V<char *> csv(const V<S> &v)
{
    V<char *> r;
    for (auto &s : v)
        r.push_back(cs(s));
    return r;
}
template <class T> struct Owned { // C handles are freed through the C interface
    V<T *> v;
    int (*f)(T *);
    explicit Owned(int (*f)(T *)) : f(f) {}
    Owned(const Owned &) = delete;
    ~Owned()
    {
        for (T *p : v)
            f(p);
    }
    void add(T *p) { v.push_back(p); }
};
static int free_lang(eg_language_t *h) { return eg_language_free(h); }
static int free_ann(eg_annotated_string_t *h) { return eg_annotated_string_free(h); }
static int free_text(eg_internationalized_text_t *h) { return eg_internationalized_text_free(h); }
static int free_contact(eg_contact_information_t *h) { return eg_contact_information_free(h); }
static int free_geo(eg_geopolitical_unit_t *h) { return eg_geopolitical_unit_free(h); }
static int free_party(eg_party_t *h) { return eg_party_free(h); }
static int free_cand(eg_candidate_t *h) { return eg_candidate_free(h); }
static int free_sel(eg_selection_description_t *h) { return eg_selection_description_free(h); }
static int free_con(eg_contest_description_t *h) { return eg_contest_description_free(h); }
static int free_style(eg_ballot_style_t *h) { return eg_ballot_style_free(h); }
static eg_internationalized_text_t *c_text(const MText &t)
{
    Owned<eg_language_t> l(free_lang);
    for (auto &p : t.langs) {
        eg_language_t *x = nullptr;
        ST(eg_language_new, cs(p.first), cs(p.second), &x);
        l.add(x);
    }
    eg_internationalized_text_t *r = nullptr;
    ST(eg_internationalized_text_new, l.v.data(), l.v.size(), &r);
    return r;
}
static eg_contact_information_t *c_contact(const MContact &c)
{
    eg_contact_information_t *r = nullptr;
    if (c.form == 0) {
        ST(eg_contact_information_new, cs(c.name), &r);
        return r;
    }
    Owned<eg_annotated_string_t> e(free_ann), p(free_ann);
    for (auto &x : c.emails) {
        eg_annotated_string_t *h = nullptr;
        ST(eg_annotated_string_new, cs(x.first), cs(x.second), &h);
        e.add(h);
    }
    for (auto &x : c.phones) {
        eg_annotated_string_t *h = nullptr;
        ST(eg_annotated_string_new, cs(x.first), cs(x.second), &h);
        p.add(h);
    }
    auto a = csv(c.addr);
    ST(eg_contact_information_new_with_collections, cs(c.name), a.data(), a.size(), e.v.data(), e.v.size(), p.v.data(), p.v.size(), &r);
    return r;
}
// the same manifest through the C interface (library scope)
UP<eg::Manifest> mk_c(const MMan &m)
{
    Owned<eg_geopolitical_unit_t> g(free_geo);
    Owned<eg_party_t> p(free_party);
    Owned<eg_candidate_t> k(free_cand);
    Owned<eg_contest_description_t> c(free_con);
    Owned<eg_ballot_style_t> s(free_style);
    Owned<eg_internationalized_text_t> t(free_text);
    Owned<eg_contact_information_t> ci(free_contact);
    for (auto &x : m.geos) {
        eg_geopolitical_unit_t *h = nullptr;
        if (x.c.present) {
            auto *ct = c_contact(x.c);
            ci.add(ct);
            ST(eg_geopolitical_unit_new_with_contact_info, cs(x.id), cs(x.name), (eg_reporting_unit_type_t)x.type, ct, &h);
        } else
            ST(eg_geopolitical_unit_new, cs(x.id), cs(x.name), (eg_reporting_unit_type_t)x.type, &h);
        g.add(h);
    }
    for (auto &x : m.parties) {
        eg_party_t *h = nullptr;
        if (x.form == 0)
            ST(eg_party_new, cs(x.id), &h);
        else if (x.form == 2 && x.name.present) {
            auto *n = c_text(x.name);
            t.add(n);
            ST(eg_party_new_with_extras, cs(x.id), n, cs(x.abbr), cs(x.color), cs(x.logo), &h);
        } else
            h = (eg_party_t *)mk(x).release();
        p.add(h);
    }
    for (auto &x : m.cands) {
        eg_candidate_t *h = nullptr;
        if (x.form == 0)
            ST(eg_candidate_new, cs(x.id), x.writein, &h);
        else if (x.form == 1)
            ST(eg_candidate_new_with_party, cs(x.id), cs(x.party), x.writein, &h);
        else if (x.form == 4 && x.name.present) {
            auto *n = c_text(x.name);
            t.add(n);
            ST(eg_candidate_new_with_extras, cs(x.id), n, cs(x.party), cs(x.image), x.writein, &h);
        } else
            h = (eg_candidate_t *)mk(x).release();
        k.add(h);
    }
    for (auto &x : m.cons) {
        eg_contest_description_t *h = nullptr;
        Owned<eg_selection_description_t> ss(free_sel);
        for (auto &y : x.sels) {
            eg_selection_description_t *z = nullptr;
            ST(eg_selection_description_new, cs(y.id), cs(y.cand), y.seq, &z);
            ss.add(z);
        }
        auto pp = csv(x.primary);
        if (x.form == 0)
            ST(eg_contest_description_new, cs(x.id), cs(x.district), x.seq, (eg_vote_variation_type_t)x.variation, x.elected, cs(x.name), ss.v.data(), ss.v.size(), &h);
        else if (x.form == 1)
            ST(eg_contest_description_new_with_parties, cs(x.id), cs(x.district), x.seq, (eg_vote_variation_type_t)x.variation, x.elected, cs(x.name), ss.v.data(), ss.v.size(), pp.data(), pp.size(), &h);
        else if (x.form == 2 && x.title.present && x.subtitle.present) {
            auto *t1 = c_text(x.title);
            t.add(t1);
            auto *t2 = c_text(x.subtitle);
            t.add(t2);
            ST(eg_contest_description_new_with_title, cs(x.id), cs(x.district), x.seq, (eg_vote_variation_type_t)x.variation, x.elected, x.allowed, cs(x.name), t1, t2, ss.v.data(), ss.v.size(), &h);
        } else
            h = (eg_contest_description_t *)mk(x).release();
        c.add(h);
    }
    for (auto &x : m.styles) {
        eg_ballot_style_t *h = nullptr;
        auto gg = csv(x.geos), pp = csv(x.parties);
        if (x.full)
            ST(eg_ballot_style_new_with_parties, cs(x.id), gg.data(), gg.size(), pp.data(), pp.size(), cs(x.image), &h);
        else
            ST(eg_ballot_style_new, cs(x.id), gg.data(), gg.size(), &h);
        s.add(h);
    }
    eg_election_manifest_t *r = nullptr;
    if (m.full && m.name.present && m.contact.present) {
        auto *n = c_text(m.name);
        t.add(n);
        auto *q = c_contact(m.contact);
        ci.add(q);
        ST(eg_election_manifest_new_with_contact, cs(m.scope), (eg_election_type_t)m.type, m.start * 1000, m.end * 1000, g.v.data(), g.v.size(), p.v.data(), p.v.size(), k.v.data(), k.v.size(), c.v.data(), c.v.size(), s.v.data(), s.v.size(), n, q, &r);
    } else if (!m.full)
        ST(eg_election_manifest_new, cs(m.scope), (eg_election_type_t)m.type, m.start * 1000, m.end * 1000, g.v.data(), g.v.size(), p.v.data(), p.v.size(), k.v.data(), k.v.size(), c.v.data(), c.v.size(), s.v.data(), s.v.size(), &r);
    else
        return mk(m);
    return UP<eg::Manifest>((eg::Manifest *)r);
}
// a manifest made of copies of the parts of another one
UP<eg::Manifest> copy_of(const eg::Manifest &m, bool assign, const MMan &order)
{
    V<UP<eg::GeopoliticalUnit>> g;
    V<UP<eg::Party>> p;
    V<UP<eg::Candidate>> k;
    V<UP<eg::ContestDescription>> c;
    V<UP<eg::BallotStyle>> s;
    auto dup = [&](auto &dst, auto src, auto seed) {
        typedef typename std::decay<decltype(src[0].get())>::type T;
        for (auto &x : src) {
            if (assign) {
                auto n = seed();
                *n = x.get();
                dst.push_back(std::move(n));
            } else
                dst.push_back(std::make_unique<T>(x.get()));
        }
    };
    dup(g, m.getGeopoliticalUnits(), [] { return std::make_unique<eg::GeopoliticalUnit>("x", "y", eg::ReportingUnitType::city); });
    dup(p, m.getParties(), [] { return std::make_unique<eg::Party>("x"); });
    dup(k, m.getCandidates(), [] { return std::make_unique<eg::Candidate>("x", true); });
    // getContests sorts by sequence; the copy lists them as the original did
    auto cons = m.getContests();
    decltype(cons) listed;
    for (auto &x : order.cons)
        for (auto &y : cons)
            if (y.get().getObjectId() == x.id)
                listed.push_back(y);
    dup(c, listed, [] { return std::make_unique<eg::ContestDescription>("x", "y", 1, eg::VoteVariationType::one_of_m, 1, "z", V<UP<eg::SelectionDescription>>()); });
    dup(s, m.getBallotStyles(), [] { return std::make_unique<eg::BallotStyle>("x", V<std::string>()); });
    auto nm = m.getName() ? std::make_unique<eg::InternationalizedText>(*m.getName()) : nullptr;
    auto ct = m.getContactInformation() ? std::make_unique<eg::ContactInformation>(*m.getContactInformation()) : nullptr;
    return std::make_unique<eg::Manifest>(m.getElectionScopeId(), m.getElectionType(), m.getStartDate(), m.getEndDate(), std::move(g), std::move(p), std::move(k), std::move(c), std::move(s), std::move(nm), std::move(ct));
}
typedef V<std::pair<S, S>> HL; // what, hash
template <class T> static S chash(T &x, int (*f)(void *, eg_element_mod_q_t **), bool capi)
{
    if (!capi)
        return x.crypto_hash()->toHex();
    eg_element_mod_q_t *q = nullptr;
    st_check("crypto_hash", f((void *)&x, &q));
    S s = ((eg::ElementModQ *)q)->toHex();
    eg_element_mod_q_free(q);
    return s;
}
#define CH(F, T) [](void *h, eg_element_mod_q_t **o) -> int { return F((T *)h, o); }
static void text_hashes(HL &l, const S &n, const eg::InternationalizedText *t, bool capi)
{
    if (!t)
        return;
    l.push_back({n, chash(*const_cast<eg::InternationalizedText *>(t), CH(eg_intertnationalized_text_crypto_hash, eg_language_t), capi)});
    int i = 0;
    for (auto &x : t->getText())
        l.push_back({n + fmt("/%d", i++), chash(x.get(), CH(eg_language_crypto_hash, eg_language_t), capi)});
}
static void contact_hashes(HL &l, const S &n, const eg::ContactInformation *c, bool capi)
{
    if (!c)
        return;
    l.push_back({n, chash(*const_cast<eg::ContactInformation *>(c), CH(eg_contact_information_crypto_hash, eg_contact_information_t), capi)});
    int i = 0;
    for (auto &x : c->getEmail())
        l.push_back({n + fmt("/e%d", i++), chash(x.get(), CH(eg_annotated_string_crypto_hash, eg_annotated_string_t), capi)});
    i = 0;
    for (auto &x : c->getPhone())
        l.push_back({n + fmt("/p%d", i++), chash(x.get(), CH(eg_annotated_string_crypto_hash, eg_annotated_string_t), capi)});
}
static HL lib_hashes(const eg::Manifest &m, bool capi, bool deep)
{
    HL l;
    l.push_back({"manifest", chash(const_cast<eg::Manifest &>(m), CH(eg_election_manifest_crypto_hash, eg_election_manifest_t), capi)});
    int i = 0;
    for (auto &x : m.getContests()) {
        S n = "contest " + x.get().getObjectId();
        l.push_back({n, chash(x.get(), CH(eg_contest_description_crypto_hash, eg_contest_description_t), capi)});
        for (auto &y : x.get().getSelections())
            l.push_back({n + " selection " + y.get().getObjectId(), chash(y.get(), CH(eg_selection_description_crypto_hash, eg_selection_description_t), capi)});
        if (deep) {
            text_hashes(l, "title of " + n, x.get().getBallotTitle(), capi);
            text_hashes(l, "subtitle of " + n, x.get().getBallotSubtitle(), capi);
        }
    }
    if (!deep)
        return l;
    i = 0;
    for (auto &x : m.getGeopoliticalUnits()) {
        S n = fmt("unit %d", i++);
        l.push_back({n, chash(x.get(), CH(eg_geopolitical_unit_crypto_hash, eg_geopolitical_unit_t), capi)});
        contact_hashes(l, n + " contact", x.get().getContactInformation(), capi);
    }
    i = 0;
    for (auto &x : m.getParties())
        l.push_back({fmt("party %d", i++), chash(x.get(), CH(eg_party_crypto_hash, eg_party_t), capi)});
    i = 0;
    for (auto &x : m.getCandidates())
        l.push_back({fmt("candidate %d", i++), chash(x.get(), CH(eg_candidate_crypto_hash, eg_candidate_t), capi)});
    i = 0;
    for (auto &x : m.getBallotStyles())
        l.push_back({fmt("style %d", i++), chash(x.get(), CH(eg_ballot_style_crypto_hash, eg_ballot_style_t), capi)});
    text_hashes(l, "name", m.getName(), capi);
    contact_hashes(l, "contact", m.getContactInformation(), capi);
    return l;
}
static void model_text(HL &l, const S &n, const MText &t, bool present)
{
    if (!present)
        return;
    l.push_back({n, orc::hex(h_text(t))});
    int i = 0;
    for (auto &p : t.langs)
        l.push_back({n + fmt("/%d", i++), orc::hex(orc::H().str(p.first).str(p.second).done())});
}
static void model_contact(HL &l, const S &n, const MContact &c, bool present)
{
    if (!present)
        return;
    l.push_back({n, orc::hex(h_contact(c))});
    int i = 0;
    for (auto &p : c.emails)
        l.push_back({n + fmt("/e%d", i++), orc::hex(orc::H().str(p.first).str(p.second).done())});
    i = 0;
    for (auto &p : c.phones)
        l.push_back({n + fmt("/p%d", i++), orc::hex(orc::H().str(p.first).str(p.second).done())});
}
static HL model_hashes(const MMan &m, bool deep)
{
    HL l;
    l.push_back({"manifest", orc::hex(h_man(m))});
    int i = 0;
    for (auto &x : m.cons) {
        S n = "contest " + x.id;
        l.push_back({n, orc::hex(h_con(x))});
        for (auto &y : x.sels)
            l.push_back({n + " selection " + y.id, orc::hex(h_sel(y))});
        if (deep) {
            model_text(l, "title of " + n, x.title, x.form >= 2 && x.title.present);
            model_text(l, "subtitle of " + n, x.subtitle, x.form >= 2 && x.subtitle.present);
        }
    }
    if (!deep)
        return l;
    i = 0;
    for (auto &x : m.geos) {
        S n = fmt("unit %d", i++);
        l.push_back({n, orc::hex(h_geo(x))});
        model_contact(l, n + " contact", x.c, x.c.present);
    }
    i = 0;
    for (auto &x : m.parties)
        l.push_back({fmt("party %d", i++), orc::hex(h_party(x))});
    i = 0;
    for (auto &x : m.cands)
        l.push_back({fmt("candidate %d", i++), orc::hex(h_cand(x))});
    i = 0;
    for (auto &x : m.styles)
        l.push_back({fmt("style %d", i++), orc::hex(h_style(x))});
    model_text(l, "name", m.name, m.full && m.name.present);
    model_contact(l, "contact", m.contact, m.full && m.contact.present);
    return l;
}
static void same_hashes(const HL &want, const HL &have, const S &who)
{
    for (size_t i = 0; i < std::max(want.size(), have.size()); i++) {
        eval();
        probe(PR_HASHES);
        if (i >= want.size() || i >= have.size() || want[i].first != have[i].first)
            violation("parts", "%s has other parts than the manifest (%s)", who.c_str(), i < have.size() ? have[i].first.c_str() : want[i].first.c_str());
        if (want[i].second != have[i].second)
            violation("hash", "%s derives hash %s for %s instead of %s", who.c_str(), have[i].second.c_str(), have[i].first.c_str(), want[i].second.c_str());
    }
}
// hashes an encryption device works with
static HL lib_im(const eg::InternalManifest &m)
{
    HL l;
    l.push_back({"manifest hash", m.getManifestHash()->toHex()});
    for (auto &x : m.getContests()) {
        auto &c = x.get();
        l.push_back({"contest " + c.getObjectId(), c.crypto_hash()->toHex()});
        for (auto &y : c.getSelections())
            l.push_back({"selection " + y.get().getObjectId(), y.get().crypto_hash()->toHex()});
        for (auto &y : c.getPlaceholders())
            l.push_back({"placeholder " + y.get().getObjectId(), y.get().crypto_hash()->toHex()});
    }
    return l;
}
static HL model_im(const MMan &m)
{
    HL l;
    l.push_back({"manifest hash", orc::hex(h_man(m))});
    V<const MCon *> v;
    for (auto &c : m.cons)
        v.push_back(&c);
    for (auto *c : v) {
        l.push_back({"contest " + c->id, orc::hex(h_con(*c))});
        for (auto &s : c->sels)
            l.push_back({"selection " + s.id, orc::hex(h_sel(s))});
        for (auto &s : placeholders(*c))
            l.push_back({"placeholder " + s.id, orc::hex(h_sel(s))});
    }
    return l;
}
static void by_name(HL &a) { std::sort(a.begin(), a.end()); }
// ---------------------------------------------------------------- changes of a manifest
static void alter(Rng &r, S &s)
{
    switch (r.below(s.empty() ? 1 : 5)) {
    case 0: s += (char)('a' + r.below(26)); break;
    case 1: s[r.below(s.size())] = (char)('A' + r.below(26)); break;
    case 2: s.resize(s.size() - 1); break;
    case 3: s += " "; break;
    default: s = s + s; break;
    }
}
static void alter(Rng &r, u64 &v) { v = r.chance(0.6) ? v + 1 : r.chance(0.5) ? v ^ (1ull << r.below(40)) : r.below(100); }
template <class T> static bool shuffle2(Rng &r, V<T> &v)
{
    if (v.size() < 2)
        return false;
    size_t a = r.below(v.size()), b = r.below(v.size());
    std::swap(v[a], v[b]);
    return a != b;
}
static void alter(Rng &r, MText &t)
{
    t.present = true;
    switch (r.below(t.langs.empty() ? 1 : 4)) {
    case 0: t.langs.push_back({gen_text(r, false, 5), "fr"}); break;
    case 1: alter(r, t.langs[r.below(t.langs.size())].first); break;
    case 2: alter(r, t.langs[r.below(t.langs.size())].second); break;
    default: t.langs.pop_back();
    }
}
static void alter(Rng &r, MContact &c)
{
    c.present = true;
    c.form = 3;
    auto an = [&](V<std::pair<S, S>> &v) {
        if (v.empty() || r.chance(0.3))
            v.push_back({"home", gen_text(r, false, 5)});
        else
            alter(r, r.chance(0.5) ? v[r.below(v.size())].first : v[r.below(v.size())].second);
    };
    switch (r.below(4)) {
    case 0: alter(r, c.name); break;
    case 1: c.addr.empty() || r.chance(0.3) ? c.addr.push_back("street") : alter(r, c.addr[r.below(c.addr.size())]); break;
    case 2: an(c.emails); break;
    default: an(c.phones);
    }
}
static S mutate(Rng &r, MMan &m)
{
    switch (r.below(30)) {
    case 0: alter(r, m.scope); return "scope";
    case 1: m.type = 1 + m.type % 7; return "type";
    case 2: m.start += 1 + r.below(100); return "start date";
    case 3: m.end += 1 + r.below(100000); return "end date";
    case 4: m.full = true, alter(r, m.name); return "name";
    case 5: m.full = true, alter(r, m.contact); return "contact";
    case 6: alter(r, m.geos[r.below(m.geos.size())].name); return "unit name";
    case 7: { auto &g = m.geos[r.below(m.geos.size())]; g.type = 1 + g.type % 28; return "unit type"; }
    case 8: alter(r, m.geos[r.below(m.geos.size())].c); return "unit contact";
    case 9: { MGeo g; g.id = "extra unit", g.name = "n", g.type = 3; m.geos.push_back(g); return "added unit"; }
    case 10: shuffle2(r, m.geos); return "unit order";
    case 11: if (m.parties.size()) { auto &p = m.parties[r.below(m.parties.size())]; alter(r, p.id); } return "party id";
    case 12: if (m.parties.size()) { auto &p = m.parties[r.below(m.parties.size())]; if (p.form >= 1) alter(r, p.abbr); } return "party abbreviation";
    case 13: if (m.parties.size()) { auto &p = m.parties[r.below(m.parties.size())]; if (p.form >= 2) alter(r, r.chance(0.5) ? p.color : p.logo); } return "party color or logo";
    case 14: if (m.parties.size()) { auto &p = m.parties[r.below(m.parties.size())]; if (p.form == 2) alter(r, p.name); } return "party name";
    case 15: { MParty p; p.id = "extra party", p.form = 1, p.abbr = "x"; m.parties.push_back(p); return "added party"; }
    default: break;
    }
    auto &c = m.cons[r.below(m.cons.size())];
    switch (r.below(14)) {
    case 0: alter(r, c.id); return "contest id";
    case 1: alter(r, c.seq); return "contest sequence";
    case 2: alter(r, c.district); return "contest district";
    case 3: c.variation = 1 + c.variation % 12; return "variation";
    case 4: c.form |= 2, alter(r, c.title); return "title";
    case 5: c.form |= 2, alter(r, c.subtitle); return "subtitle";
    case 6: alter(r, c.name); return "contest name";
    case 7: c.elected++; return "number elected";
    case 8: c.form |= 2, alter(r, c.allowed); return "votes allowed";
    case 9: alter(r, c.sels[r.below(c.sels.size())].id); return "selection id";
    case 10: alter(r, c.sels[r.below(c.sels.size())].cand); return "candidate of a selection";
    case 11: { auto &s = c.sels[r.below(c.sels.size())]; s.seq += 50 + r.below(5); return "selection sequence"; }
    case 12: { MSel s; s.id = "extra selection", s.cand = "c", s.seq = 90; c.sels.push_back(s); return "added selection"; }
    default: break;
    }
    if (r.chance(0.3)) {
        shuffle2(r, m.cons);
        return "contest order";
    }
    if (r.chance(0.3)) {
        shuffle2(r, c.sels);
        return "selection order";
    }
    auto &s = m.styles[r.below(m.styles.size())];
    switch (r.below(5)) {
    case 0: alter(r, s.id); return "style id";
    case 1: s.geos.push_back("more"); return "style units";
    case 2: s.full = true, s.parties.push_back("more"); return "style parties";
    case 3: s.full = true, alter(r, s.image); return "style image";
    default: shuffle2(r, m.styles); return "style order";
    }
}
// ---------------------------------------------------------------- contexts
UP<eg::CiphertextElectionContext> ctx_by(int form, const orc::Ctx &c)
{
    std::unordered_map<S, S> x = {{"k1", "v1"}, {"k2", ""}};
    struct L {
        eg_linked_list_t *l = nullptr;
        L()
        {
            ST(eg_linked_list_new, &l);
            ST(eg_linked_list_append, l, (char *)"k1", (char *)"v1");
        }
        ~L() { eg_linked_list_free(l); }
    };
    struct Cfg {
        eg_context_configuration_t *c = nullptr;
        Cfg() { ST(eg_ciphertext_election_context_config_make, true, 77, &c); }
        ~Cfg() { eg_ciphertext_election_context_config_free(c); }
    };
    auto K = mkp(c.K);
    auto h = mkq(c.commit), m = mkq(c.mhash);
    S hK = orc::hex(c.K), hh = orc::hex(c.commit), hm = orc::hex(c.mhash);
    auto *pk = (eg_element_mod_p_t *)K.get();
    auto *ph = (eg_element_mod_q_t *)h.get(), *pm = (eg_element_mod_q_t *)m.get();
    eg_ciphertext_election_context_t *r = nullptr;
    typedef eg::CiphertextElectionContext X;
    switch (form) {
    case 0: return X::make(c.n, c.k, std::move(K), std::move(h), std::move(m));
    case 1: return X::make(c.n, c.k, std::move(K), std::move(h), std::move(m), eg::ContextConfiguration::make(false, 5));
    case 2: return X::make(c.n, c.k, std::move(K), std::move(h), std::move(m), x);
    case 3: return X::make(c.n, c.k, std::move(K), std::move(h), std::move(m), eg::ContextConfiguration::make(false, 5), x);
    case 4: return X::make(c.n, c.k, hK, hh, hm);
    case 5: return X::make(c.n, c.k, hK, hh, hm, x);
    case 6: return X::make(c.n, c.k, hK, hh, hm, eg::ContextConfiguration::make(true, 5));
    case 7: ST(eg_ciphertext_election_context_make, c.n, c.k, pk, ph, pm, &r); break;
    case 8: {
        Cfg g;
        ST(eg_ciphertext_election_context_make_with_configuration, c.n, c.k, pk, ph, pm, g.c, &r);
        break;
    }
    case 9: {
        L l;
        ST(eg_ciphertext_election_context_make_with_extended_data, c.n, c.k, pk, ph, pm, l.l, &r);
        break;
    }
    case 10: {
        L l;
        Cfg g;
        ST(eg_ciphertext_election_context_make_with_configuration_and_extended_data, c.n, c.k, pk, ph, pm, g.c, l.l, &r);
        break;
    }
    case 11: ST(eg_ciphertext_election_context_make_from_hex, c.n, c.k, cs(hK), cs(hh), cs(hm), &r); break;
    default: {
        L l;
        ST(eg_ciphertext_election_context_make_from_hex_with_extended_data, c.n, c.k, cs(hK), cs(hh), cs(hm), l.l, &r);
    }
    }
    return UP<X>((X *)r);
}
static HL ctx_hashes(const eg::CiphertextElectionContext &c, bool capi)
{
    HL l;
    if (!capi) {
        l = {{"key", c.getElGamalPublicKey()->toHex()}, {"commitment hash", c.getCommitmentHash()->toHex()}, {"manifest hash", c.getManifestHash()->toHex()},
             {"base hash", c.getCryptoBaseHash()->toHex()}, {"extended base hash", c.getCryptoExtendedBaseHash()->toHex()}};
        return l;
    }
    auto *h = (eg_ciphertext_election_context_t *)&c;
    eg_element_mod_p_t *p = nullptr;
    ST(eg_ciphertext_election_context_get_elgamal_public_key, h, &p);
    l.push_back({"key", ((eg::ElementModP *)p)->toHex()});
    auto q = [&](const char *n, auto f) {
        eg_element_mod_q_t *x = nullptr;
        st_check(n, f(h, &x));
        l.push_back({n, ((eg::ElementModQ *)x)->toHex()});
    };
    q("commitment hash", eg_ciphertext_election_context_get_commitment_hash);
    q("manifest hash", eg_ciphertext_election_context_get_manifest_hash);
    q("base hash", eg_ciphertext_election_context_get_crypto_base_hash);
    q("extended base hash", eg_ciphertext_election_context_get_crypto_extended_base_hash);
    return l;
}
static void finish(orc::Ctx &c)
{
    c.base = orc::H().z(orc::P).z(orc::Q).z(orc::G).u(c.n).u(c.k).z(c.mhash).done();
    c.ext = orc::H().z(c.base).z(c.commit).done();
}
static HL ctx_model(const orc::Ctx &c)
{
    return {{"key", orc::hex(c.K)}, {"commitment hash", orc::hex(c.commit)}, {"manifest hash", orc::hex(c.mhash)}, {"base hash", orc::hex(c.base)}, {"extended base hash", orc::hex(c.ext)}};
}
// ---------------------------------------------------------------- hashing of any sequence of elements
static void hash_any(Rng &r)
{
    V<UP<eg::ElementModP>> ps;
    V<UP<eg::ElementModQ>> qs;
    V<UP<eg::SelectionDescription>> hs;
    V<Z> zp_, zq_, zh;
    auto small = [&](Z lim) {
        Z v = orc::from_bytes(orc::sha256(std::to_string(r.next())));
        if (r.chance(0.3))
            v >>= r.below(256);
        return Z(v % lim);
    };
    for (int i = 0; i < 3; i++) {
        Z v = r.chance(0.5) ? orc::gpow(small(orc::Q)) : small(orc::P);
        if (r.chance(0.3))
            v >>= r.below(4096);
        zp_.push_back(v);
        zq_.push_back(small(orc::Q));
        MSel s;
        s.id = gen_text(r, r.chance(0.5), 9), s.cand = r.chance(0.2) ? "" : gen_text(r, false, 4), s.seq = r.below(4);
        zh.push_back(h_sel(s));
        Lib l;
        ps.push_back(mkp(zp_.back()));
        qs.push_back(mkq(zq_.back()));
        hs.push_back(mk(s));
    }
    u64 n = r.below(7);
    for (int round = 0; round < 2; round++) {
        orc::H h;
        V<eg::CryptoHashableType> v;
        typedef eg::CryptoHashable CHb;
        {
            for (u64 i = 0; i < n; i++) {
                size_t a = r.below(3), b = r.below(4);
                V<Z> sub;
                for (size_t j = 0; j < b; j++)
                    sub.push_back(Z((unsigned long)j));
                int kind = (int)r.below(24);
                auto plist = [&] { V<S> e; for (size_t j = 0; j < b; j++) e.push_back(orc::hex(zp_[j % 3])); if (e.empty()) h.null(); else { orc::H g; for (auto &x : e) g.raw(x); h.raw(orc::hex(g.done())); } };
                auto qlist = [&] { if (!b) { h.null(); return; } orc::H g; for (size_t j = 0; j < b; j++) g.z(zq_[j % 3]); h.z(g.done()); };
                auto hlist = [&] { if (!b) { h.null(); return; } orc::H g; for (size_t j = 0; j < b; j++) g.z(zh[j % 3]); h.z(g.done()); };
                switch (kind) {
                case 0: v.push_back(nullptr), h.null(); break;
                case 1: v.push_back((CHb *)hs[a].get()), h.z(zh[a]); break;
                case 2: v.push_back(ps[a].get()), h.z(zp_[a]); break;
                case 3: v.push_back(qs[a].get()), h.z(zq_[a]); break;
                case 4: v.push_back(std::reference_wrapper<CHb>(*hs[a])), h.z(zh[a]); break;
                case 5: v.push_back(std::reference_wrapper<eg::ElementModP>(*ps[a])), h.z(zp_[a]); break;
                case 6: v.push_back(std::reference_wrapper<eg::ElementModQ>(*qs[a])), h.z(zq_[a]); break;
                case 7: v.push_back(std::reference_wrapper<const CHb>(*hs[a])), h.z(zh[a]); break;
                case 8: v.push_back(std::reference_wrapper<const eg::ElementModP>(*ps[a])), h.z(zp_[a]); break;
                case 9: v.push_back(std::reference_wrapper<const eg::ElementModQ>(*qs[a])), h.z(zq_[a]); break;
                case 10: {
                    u64 x = r.chance(0.3) ? 0 : r.chance(0.5) ? r.next() : r.below(300);
                    v.push_back((uint64_t)x), h.u(x);
                    break;
                }
                case 11: {
                    S s = r.chance(0.2) ? "" : gen_text(r, true, r.chance(0.1) ? 300 : 20);
                    v.push_back(s), h.str(s);
                    break;
                }
                case 12: { V<CHb *> x; for (size_t j = 0; j < b; j++) x.push_back(hs[j % 3].get()); v.push_back(x), hlist(); break; }
                case 13: { V<eg::ElementModP *> x; for (size_t j = 0; j < b; j++) x.push_back(ps[j % 3].get()); v.push_back(x), plist(); break; }
                case 14: { V<eg::ElementModQ *> x; for (size_t j = 0; j < b; j++) x.push_back(qs[j % 3].get()); v.push_back(x), qlist(); break; }
                case 15: { V<std::reference_wrapper<CHb>> x; for (size_t j = 0; j < b; j++) x.push_back(*hs[j % 3]); v.push_back(x), hlist(); break; }
                case 16: { V<std::reference_wrapper<eg::ElementModP>> x; for (size_t j = 0; j < b; j++) x.push_back(*ps[j % 3]); v.push_back(x), plist(); break; }
                case 17: { V<std::reference_wrapper<eg::ElementModQ>> x; for (size_t j = 0; j < b; j++) x.push_back(*qs[j % 3]); v.push_back(x), qlist(); break; }
                case 18: { V<std::reference_wrapper<const CHb>> x; for (size_t j = 0; j < b; j++) x.push_back(*hs[j % 3]); v.push_back(x), hlist(); break; }
                case 19: { V<std::reference_wrapper<const eg::ElementModP>> x; for (size_t j = 0; j < b; j++) x.push_back(*ps[j % 3]); v.push_back(x), plist(); break; }
                case 20: { V<std::reference_wrapper<const eg::ElementModQ>> x; for (size_t j = 0; j < b; j++) x.push_back(*qs[j % 3]); v.push_back(x), qlist(); break; }
                case 21: {
                    V<uint64_t> x;
                    for (size_t j = 0; j < b; j++)
                        x.push_back(r.chance(0.2) ? 0 : r.next() >> r.below(64));
                    v.push_back(x);
                    if (!b) { h.null(); break; }
                    orc::H g;
                    for (auto y : x)
                        g.u(y);
                    h.z(g.done());
                    break;
                }
                case 22: {
                    V<S> x;
                    for (size_t j = 0; j < b; j++)
                        x.push_back(r.chance(0.2) ? "" : gen_text(r, true, 9));
                    v.push_back(x), h.list(x);
                    break;
                }
                default: {
                    V<u8> x;
                    for (size_t j = 0, k = r.below(40); j < k; j++)
                        x.push_back((u8)r.next());
                    S hx; // as a number: no leading zero bytes
                    for (u8 y : x)
                        if (y || !hx.empty())
                            hx += fmt("%02X", y);
                    v.push_back(x), h.raw(hx.empty() ? "00" : hx);
                }
                }
            }
        }
        S got, want;
        if (n == 0)
            h.null();
        want = orc::hex(h.done());
        arm_faults(0.1, 0);
        Res x = lib([&] { got = (n == 1 && round ? eg::hash_elems(v[0]) : eg::hash_elems(v))->toHex(); });
        if (disarm_faults() && !x.ok) {
            probe(PR_FAULT_RETRY);
            x = lib([&] { got = eg::hash_elems(v)->toHex(); });
        }
        eval();
        probe(PR_HASHES);
        if (!x.ok)
            violation("hash-failed", "hashing %lu elements failed: %s", (unsigned long)n, x.err.c_str());
        if (got != want) {
            S kinds;
            for (auto &e : v)
                kinds += fmt(" %zu", e.index());
            violation("hash-elems", "the hash of the element kinds%s is %s instead of %s", kinds.c_str(), got.c_str(), want.c_str());
        }
        Lib l;
        v.clear();
    }
    Lib l;
    ps.clear(), qs.clear(), hs.clear();
}
// ================================================================ P17
static void spice(Rng &r, MMan &m)
{
    for (auto &c : m.cons) {
        if (r.chance(0.3))
            c.variation = (int)r.range(1, 12);
        if (c.form >= 2 && r.chance(0.3))
            c.allowed = r.below(4);
        if (r.chance(0.1))
            c.seq = r.below(1ull << 40);
        if (r.chance(0.1))
            c.name = "";
        for (auto &s : c.sels)
            if (r.chance(0.03))
                s.cand = "";
    }
    for (auto &g : m.geos)
        if (g.c.present && r.chance(0.2)) {
            g.c = MContact();
            g.c.present = true;
            if (r.chance(0.5))
                g.c.name = "only a name";
        }
    if (r.chance(0.2))
        m.start = r.below(4102444800ull), m.end = m.start + r.below(1000000);
    if (m.full && r.chance(0.2))
        m.contact = MContact(), m.contact.present = r.chance(0.5);
    if (m.full && r.chance(0.2))
        m.name = MText();
}
void p17(u32 inc)
{
    Rng g = gen(17);
    GenOpt o;
    o.max_con = g.chance(0.2) ? 5 : 3;
    o.max_sel = 4;
    o.max_elected = 3;
    o.rich = g.chance(0.85);
    o.wild_text = g.chance(0.4);
    Election e = gen_election(g, o);
    spice(g, e.m);
    e.c.mhash = h_man(e.m);
    finish(e.c);
    Rng r = gen(217);
    struct Party { u32 id; int path; int fm; bool capi; int from; int ctxform; bool assign; bool crash; bool threads; };
    V<Party> ps;
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; i++) {
        Party p;
        p.id = (u32)i;
        p.path = i == 0 ? (int)r.below(2) : (int)r.below(5);
        p.fm = (int)r.below(FM_N);
        p.capi = r.chance(0.4);
        p.from = i ? (int)r.below(i) : 0;
        p.ctxform = (int)r.below(13);
        p.assign = r.chance(0.4);
        p.crash = r.chance(0.3);
        p.threads = r.chance(0.2);
        ps.push_back(p);
    }
    int nmut = (int)r.below(5), nhash = (int)r.below(6);
    sh->ops = (u64)n + nmut + nhash;
    double pa = r.chance(0.4) ? 0.3 : 0;
    if (spec.warm)
        warm_tables(e.c.K);
    start(inc);
    if (inc) {
        disk_crash();
        probe(PR_RESTART);
    }
    u64 arg;
    ctx(900 + 1000 * inc);
    if (inc < 3 && plan(F_CRASH, 0.4, 1ull << 40, &arg))
        arm_crash(log_pos(arg) * (1 + (arg >> 20) % 8));
    auto want = model_hashes(e.m, true);
    const S mh = want[0].second;
    auto wim = model_im(e.m);
    by_name(wim);
    auto wctx = ctx_model(e.c);
    // one call that may meet a failing allocation and is then repeated
    auto tryit = [&](const char *what, auto f) {
        arm_faults(pa, 0);
        Res x = lib(f);
        bool hit = disarm_faults();
        if (!x.standard)
            violation("nonstandard", "%s: non-standard exception", what);
        if (!x.ok && hit) {
            probe(PR_FAULT_RETRY);
            x = lib(f);
        }
        if (!x.ok)
            violation("refused", "%s failed: %s", what, x.err.c_str());
    };
    auto judge_man = [&](const eg::Manifest &m, const HL &w, const S &who, bool capi, bool deep) {
        HL have;
        tryit("hashing a manifest", [&] { have = lib_hashes(m, capi, deep); });
        HL ww = deep ? w : HL();
        if (!deep)
            for (auto &x : w)
                if (x.first == "manifest" || x.first.compare(0, 8, "contest ") == 0)
                    ww.push_back(x);
        by_name(ww), by_name(have);
        same_hashes(ww, have, who);
    };
    auto judge_im = [&](const eg::InternalManifest &m, const HL &w, const S &who) {
        HL have;
        tryit("hashing an internal manifest", [&] { have = lib_im(m); });
        by_name(have);
        same_hashes(w, have, who);
    };
    auto refuses = [&](const eg::InternalManifest &im, const eg::CiphertextElectionContext &c, const MMan &m, bool capi, Rng &q, const S &why) {
        UP<eg::EncryptionDevice> d;
        UP<eg::EncryptionMediator> med;
        eg_encryption_mediator_t *h = nullptr;
        tryit("making a device", [&] { d = std::make_unique<eg::EncryptionDevice>(1, 2, 3, "here"); });
        Res x = lib([&] {
            if (capi) {
                st_check("eg_encryption_mediator_new", eg_encryption_mediator_new((eg_internal_manifest_t *)&im, (eg_ciphertext_election_context_t *)&c, (eg_encryption_device_t *)d.get(), &h));
                med.reset((eg::EncryptionMediator *)h);
            } else
                med = std::make_unique<eg::EncryptionMediator>(im, c, *d);
        });
        eval();
        if (!x.standard)
            violation("nonstandard", "refusing a mismatch threw something that is not a standard exception");
        if (x.ok) { // a device that can be made has to refuse to encrypt
            VBal b = gen_ballot(q, m, "ballot", BalOpt());
            UP<eg::PlaintextBallot> p;
            tryit("making a ballot", [&] { p = mk(b); });
            for (int i = 0; i < 4; i++) {
                bool gave = false;
                lib([&] {
                    eg_ciphertext_ballot_t *cb = nullptr;
                    eg_compact_ciphertext_ballot_t *cc = nullptr;
                    switch (i) {
                    case 0: med->encrypt(*p, false); break;
                    case 1: med->compactEncrypt(*p, false); break;
                    case 2: ST(eg_encryption_mediator_encrypt_ballot, (eg_encryption_mediator_t *)med.get(), (eg_plaintext_ballot_t *)p.get(), &cb); delete (eg::CiphertextBallot *)cb; break;
                    default: ST(eg_encryption_mediator_compact_encrypt_ballot, (eg_encryption_mediator_t *)med.get(), (eg_plaintext_ballot_t *)p.get(), &cc); delete (eg::CompactCiphertextBallot *)cc;
                    }
                    gave = true;
                });
                if (gave)
                    violation("mismatch", "a device encrypts a ballot although manifest and context do not belong together (%s)%s", why.c_str(), capi ? ", C interface" : "");
            }
        }
        if (!x.ok && h)
            violation("handle", "a refused mediator still returned a handle");
        probe(PR_MISMATCH);
        fired(F_MISMATCH);
        Lib l;
        med.reset(), d.reset();
    };
    V<UP<eg::Manifest>> mans(n);
    V<UP<eg::InternalManifest>> ims(n);
    V<UP<eg::CiphertextElectionContext>> ctxs(n);
    auto source = [&](int f) -> eg::Manifest * {
        for (int j = f; j >= 0; j--)
            if (mans[j])
                return mans[j].get();
        return nullptr;
    };
    for (auto &p : ps) {
        if (dropped(p.id))
            continue;
        ctx(p.id + 1000 * inc);
        Rng q = gen(1700 + p.id);
        S who = fmt("party %u", p.id);
        static const char *PATH[] = {"builds it", "builds it through the C interface", "loads it", "copies its parts", "reads its stored copy"};
        auto *src = source(p.from);
        int path = !src && p.path >= 2 ? 0 : p.path;
        who += S(", which ") + PATH[path];
        S rec;
        if (inc && disk_read("man/" + std::to_string(p.id), rec, nullptr))
            path = 5;
        auto &man = mans[p.id];
        switch (path) {
        case 0: tryit("building a manifest", [&] { man = mk(e.m); }); break;
        case 1: tryit("building a manifest through the C interface", [&] { man = mk_c(e.m); }); break;
        case 3: tryit("copying a manifest", [&] { man = copy_of(*src, p.assign, e.m); }); break;
        case 5: { // restarted: its own stored copy, when it was completely stored
            bool torn = false;
            disk_read("man/" + std::to_string(p.id), rec, &torn);
            if (torn) {
                tryit("building a manifest", [&] { man = mk(e.m); });
                break;
            }
            who = fmt("party %u after a restart", p.id);
            tryit("reloading a manifest", [&] { man = std::move(get(K_MAN, p.fm, rec, p.capi).man); });
            probe(PR_RELOAD);
            break;
        }
        default: {
            S b;
            Obj ob;
            ob.kind = K_MAN;
            tryit("sending a manifest", [&] {
                ob.man.reset(const_cast<eg::Manifest *>(src));
                struct R { Obj &o; ~R() { o.man.release(); } } rr{ob};
                b = put(ob, p.fm, q.chance(0.4));
            });
            tryit("receiving a manifest", [&] { man = std::move(get(K_MAN, p.fm, b, p.capi).man); });
            probe(PR_RELOAD);
        }
        }
        judge_man(*man, want, who, p.capi, true);
        if (p.threads) {
            int t[2];
            V<HL> res(2);
            for (int i = 0; i < 2; i++)
                t[i] = spawn([&, i] { ctx(p.id + 500 + 20 * (u32)i + 1000 * inc); lib([&] { res[i] = lib_hashes(*man, i, false); }); }, "hasher");
            for (int i = 0; i < 2; i++)
                join(t[i]);
            for (int i = 0; i < 2; i++)
                if (res[i].empty() || res[i][0].second != mh)
                    violation("hash", "%s derives another manifest hash while two threads hash at once", who.c_str());
        }
        // its internal manifest: made, copied through storage, made through the C interface
        tryit("making an internal manifest", [&] {
            if (p.capi) {
                eg_internal_manifest_t *h = nullptr;
                ST(eg_internal_manifest_new, (eg_election_manifest_t *)man.get(), &h);
                ims[p.id].reset((eg::InternalManifest *)h);
            } else
                ims[p.id] = std::make_unique<eg::InternalManifest>(*man);
        });
        judge_im(*ims[p.id], wim, who);
        if (q.chance(0.5)) {
            Obj ob;
            ob.kind = K_IM;
            ob.im = std::move(ims[p.id]);
            int fm = (int)q.below(FM_N);
            S b;
            tryit("storing an internal manifest", [&] { b = put(ob, fm, p.capi); });
            tryit("loading an internal manifest", [&] { ims[p.id] = std::move(get(K_IM, fm, b, !p.capi).im); });
            {
                Lib l;
                ob.drop();
            }
            judge_im(*ims[p.id], wim, who + " and reloads its internal manifest");
        }
        // the context, by one of 13 ways
        tryit("making a context", [&] { ctxs[p.id] = ctx_by(p.ctxform, e.c); });
        HL hc;
        tryit("reading a context", [&] { hc = ctx_hashes(*ctxs[p.id], p.capi); });
        same_hashes(wctx, hc, who + fmt(" and makes the context in way %d", p.ctxform));
        if (q.chance(0.4)) {
            Obj ob;
            ob.kind = K_CTX;
            ob.ctx = std::move(ctxs[p.id]);
            int fm = (int)q.below(2);
            S b;
            tryit("storing a context", [&] { b = put(ob, fm, p.capi); });
            tryit("loading a context", [&] { ctxs[p.id] = std::move(get(K_CTX, fm, b, !p.capi).ctx); });
            {
                Lib l;
                ob.drop();
            }
            tryit("reading a context", [&] { hc = ctx_hashes(*ctxs[p.id], !p.capi); });
            same_hashes(wctx, hc, who + " and reloads the context");
        }
        // belongs together
        UP<eg::EncryptionDevice> d;
        UP<eg::EncryptionMediator> med;
        S dh;
        u64 da = q.next() >> q.below(60), db = q.next() >> q.below(60), dc = q.below(3);
        S loc = q.chance(0.2) ? "" : gen_text(q, o.wild_text, 9);
        tryit("making a device and mediator of one election", [&] {
            d = std::make_unique<eg::EncryptionDevice>(da, db, dc, loc);
            dh = d->getHash()->toHex();
            if (p.capi) {
                eg_encryption_mediator_t *h = nullptr;
                ST(eg_encryption_mediator_new, (eg_internal_manifest_t *)ims[p.id].get(), (eg_ciphertext_election_context_t *)ctxs[p.id].get(), (eg_encryption_device_t *)d.get(), &h);
                med.reset((eg::EncryptionMediator *)h);
            } else
                med = std::make_unique<eg::EncryptionMediator>(*ims[p.id], *ctxs[p.id], *d);
        });
        eval();
        if (dh != orc::hex(orc::device_hash(da, db, dc, loc)))
            violation("device-hash", "%s derives a device hash %s", who.c_str(), dh.c_str());
        {
            Lib l;
            med.reset(), d.reset();
        }
        // keeps its copy
        Obj ob;
        ob.kind = K_MAN;
        S b;
        tryit("storing a manifest", [&] {
            ob.man.reset(man.get());
            struct R { Obj &o; ~R() { o.man.release(); } } rr{ob};
            b = put(ob, p.fm, p.capi);
        });
        if (!inc || path != 5)
            disk_sync(disk_write("man/" + std::to_string(p.id), b));
        if (p.crash)
            yield_point();
    }
    // parties of another election
    for (int i = 0; i < nmut; i++) {
        u32 op = (u32)(n + i);
        if (dropped(op))
            continue;
        ctx(op + 1000 * inc);
        Rng q = gen(2700 + i);
        MMan m2 = e.m;
        S what;
        for (u64 k = 0, c = 1 + q.below(8) / 7; k < c; k++)
            what = mutate(q, m2);
        orc::Ctx c2 = e.c;
        c2.mhash = h_man(m2);
        if (q.chance(0.25)) { // only the parameters differ
            m2 = e.m;
            c2.mhash = e.c.mhash;
            switch (q.below(4)) {
            case 0: c2.n++; what = "number of guardians"; break;
            case 1: c2.k++; what = "quorum"; break;
            case 2: c2.commit = orc::modq(c2.commit + 1); what = "commitment hash"; break;
            default: c2.mhash = orc::modq(c2.mhash + (q.chance(0.5) ? Z(1) : Z(1) << q.below(250))); what = "recorded manifest hash"; break;
            }
        }
        finish(c2);
        UP<eg::Manifest> man2;
        UP<eg::InternalManifest> im2, im1;
        UP<eg::CiphertextElectionContext> x2, x1;
        bool capi = q.chance(0.4);
        int form = (int)q.below(13);
        tryit("building a changed manifest", [&] {
            man2 = capi ? mk_c(m2) : mk(m2);
            im2 = std::make_unique<eg::InternalManifest>(*man2);
            x2 = ctx_by(form, c2);
            auto t = mk(e.m);
            im1 = std::make_unique<eg::InternalManifest>(*t);
            x1 = ctx_by((form + 5) % 13, e.c);
        });
        judge_man(*man2, model_hashes(m2, true), "a party with a changed " + what, capi, true);
        HL h2, h1;
        tryit("reading a context", [&] { h2 = ctx_hashes(*x2, capi), h1 = ctx_hashes(*x1, capi); });
        same_hashes(ctx_model(c2), h2, "a party with a changed " + what);
        same_hashes(wctx, h1, "a party");
        if (e.c.ext != c2.ext && (h1[3].second == h2[3].second && h1[4].second == h2[4].second))
            violation("unchanged", "changing the %s leaves the base hashes as they were", what.c_str());
        if (c2.mhash != e.c.mhash) {
            bool cc = q.chance(0.5);
            if (h_man(m2) != e.c.mhash)
                refuses(*im2, *x1, m2, cc, q, "changed " + what);
            refuses(*im1, *x2, e.m, !cc, q, "changed " + what);
        }
        Lib l;
        im2.reset(), im1.reset(), x1.reset(), x2.reset(), man2.reset();
    }
    for (int i = 0; i < nhash; i++) {
        u32 op = (u32)(n + nmut + i);
        if (dropped(op))
            continue;
        ctx(op + 1000 * inc);
        Rng q = gen(3700 + i);
        hash_any(q);
    }
    // nobody's view changed meanwhile
    ctx(950 + 1000 * inc);
    for (int i = 0; i < n; i++)
        if (mans[i] && !dropped((u32)i)) {
            judge_man(*mans[i], want, fmt("party %d at the end", i), ps[i].capi, false);
            judge_im(*ims[i], wim, fmt("party %d at the end", i));
        }
    disarm_crash();
    sample(fmt("%d parties, %d other elections, %d hashed sequences, incarnation %u, allocation faults %d", n, nmut, nhash, inc, pa > 0));
    Lib l;
    mans.clear(), ims.clear(), ctxs.clear();
}
} // namespace scen
