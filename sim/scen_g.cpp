// Failure atomicity (P15): every operation of the C++ and C interfaces meets failing allocations, failing randomness and unusable
// input at seeded points, on one or several threads; afterwards everything is as before and the repeated call has its usual effect.
#include "art.h"
#include <algorithm>
#include <cstring>
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/ballot_code.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/chaum_pedersen.h>
#include <electionguard/collections.h>
#include <electionguard/election.h>
#include <electionguard/elgamal.h>
#include <electionguard/encrypt.h>
#include <electionguard/group.h>
#include <electionguard/hash.h>
#include <electionguard/manifest.h>
}
#include <electionguard/ballot_code.hpp>
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/elgamal.hpp>
#include <electionguard/hash.hpp>
namespace scen {
namespace {
struct Call {
    S name;
    std::function<S()> f; // library scope; the effect as text
    bool rnd = false;     // draws randomness
    bool cmp = true;      // the effect is a function of the arguments
    S want;
    bool has_want = false, bad = false;
    int group = 0;
    bool first_ref = false; // never attempt a fault before one undisturbed call
};
struct Cat {
    V<Call> v;
    int group = 0;
    Call &add(const S &n, std::function<S()> f)
    {
        Call c;
        c.name = n;
        c.f = std::move(f);
        c.group = group;
        v.push_back(std::move(c));
        return v.back();
    }
    Call &want(const S &n, std::function<S()> f, const S &w)
    {
        Call &c = add(n, std::move(f));
        c.want = w;
        c.has_want = true;
        return c;
    }
    void bad(const S &n, std::function<S()> f) { add(n, std::move(f)).bad = true; }
};
char sent_[64];
template <class T> T *sent() { return (T *)(void *)sent_; }
template <class T> void check_out(const char *n, int st, T *p)
{
    if (st) {
        if (p && p != sent<T>())
            violation("handle", "%s returned status %d but gave a result", n, st);
        throw StatusError(n, st);
    }
    if (!p || p == sent<T>())
        violation("no-result", "%s returned success without a result", n);
}
template <class T> struct Hold { // frees through the C interface
    T *p;
    eg_electionguard_status_t (*f)(T *);
    Hold(T *p, eg_electionguard_status_t (*f)(T *)) : p(p), f(f) {}
    Hold(const Hold &) = delete;
    ~Hold()
    {
        if (p)
            f(p);
    }
};
S show(const eg_element_mod_q_t *q)
{
    Host h;
    return orc::hex(zq(*(eg::ElementModQ *)q));
}
S show(const eg_element_mod_p_t *p)
{
    Host h;
    return orc::hex(zp(*(eg::ElementModP *)p));
}
S show(const eg::ElementModQ &q) { return show((const eg_element_mod_q_t *)&q); }
S show(const eg::ElementModP &p) { return show((const eg_element_mod_p_t *)&p); }
S show(const eg_elgamal_ciphertext_t *c)
{
    auto *x = (eg::ElGamalCiphertext *)c;
    return show(*x->getPad()) + " " + show(*x->getData());
}
#define SHOW_ID(T, C) \
    S show(const T *p) \
    { \
        Host h; \
        return ((const eg::C *)p)->getObjectId(); \
    }
SHOW_ID(eg_geopolitical_unit_t, GeopoliticalUnit)
SHOW_ID(eg_party_t, Party)
SHOW_ID(eg_candidate_t, Candidate)
SHOW_ID(eg_contest_description_t, ContestDescription)
SHOW_ID(eg_selection_description_t, SelectionDescription)
SHOW_ID(eg_ballot_style_t, BallotStyle)
SHOW_ID(eg_plaintext_ballot_contest_t, PlaintextBallotContest)
SHOW_ID(eg_plaintext_ballot_selection_t, PlaintextBallotSelection)
SHOW_ID(eg_ciphertext_ballot_contest_t, CiphertextBallotContest)
SHOW_ID(eg_ciphertext_ballot_selection_t, CiphertextBallotSelection)
S show(const eg_contest_description_with_placeholders_t *p)
{
    Host h;
    return ((const eg::ContestDescriptionWithPlaceholders *)p)->getObjectId();
}
S show(const eg_language_t *p)
{
    Host h;
    auto *l = (eg::Language *)p;
    return l->getValue() + "/" + l->getLanguage();
}
template <class T> S show_addr(const T *p) { return fmt("%p", (const void *)p); }
template <class R, class H, class P> Call &text(Cat &c, const char *n, R (*f)(H, P **), H h, const S &w)
{
    return c.want(n, [=] {
        P *p = sent<P>();
        int st = guarded(n, [&] { return f(h, &p); });
        check_out(n, st, p);
        S s;
        {
            Host x;
            s = p;
        }
        eg_free_int_ptr((char *)p);
        return s;
    }, w);
}
template <class R, class H, class T> Call &ref(Cat &c, const char *n, R (*f)(H, T **), H h)
{
    return c.add(n, [=] {
        T *p = sent<T>();
        int st = guarded(n, [&] { return f(h, &p); });
        check_out(n, st, p);
        return show(p);
    });
}
template <class R, class H, class T> Call &addr(Cat &c, const char *n, R (*f)(H, T **), H h)
{
    return c.add(n, [=] {
        T *p = sent<T>();
        int st = guarded(n, [&] { return f(h, &p); });
        check_out(n, st, p);
        return show_addr(p);
    });
}
template <class R, class H> Call &hashof(Cat &c, const char *n, R (*f)(H, eg_element_mod_q_t **), H h)
{
    return c.add(n, [=] {
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded(n, [&] { return f(h, &p); });
        check_out(n, st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        return show(p);
    });
}
template <class R, class H, class T> void at(Cat &c, const char *n, R (*f)(H, uint64_t, T **), H h, u64 i, u64 size, const S &w)
{
    auto g = [=](u64 i) {
        T *p = sent<T>();
        int st = guarded(n, [&] { return f(h, i, &p); });
        check_out(n, st, p);
        return show(p);
    };
    if (i < size)
        c.want(n, [=] { return g(i); }, w);
    c.bad(S(n) + " out of range", [=] { return g(size); });
    c.bad(S(n) + " far out of range", [=] { return g(~0ull); });
}
template <class R, class H> void at_text(Cat &c, const char *n, R (*f)(H, uint64_t, char **), H h, u64 i, u64 size, const S &w)
{
    auto g = [=](u64 i) {
        char *p = sent<char>();
        int st = guarded(n, [&] { return f(h, i, &p); });
        check_out(n, st, p);
        S s;
        {
            Host x;
            s = p;
        }
        eg_free_int_ptr(p);
        return s;
    };
    if (i < size)
        c.want(n, [=] { return g(i); }, w);
    c.bad(S(n) + " out of range", [=] { return g(size); });
}
char *cs(const S &s) { return const_cast<char *>(s.c_str()); }
#define TEXT(F, H, W) text(c, #F, F, H, W)
#define REF(F, H) ref(c, #F, F, H)
#define ADDR(F, H) addr(c, #F, F, H)
#define HASH(F, H) hashof(c, #F, F, H)
#define AT(F, H, I, N, W) at(c, #F, F, H, I, N, W)
#define AT_TEXT(F, H, I, N, W) at_text(c, #F, F, H, I, N, W)
template <class T> void pick(Rng &q, const V<T> &v, std::function<void(const T &, size_t)> f)
{
    if (v.size()) {
        size_t i = q.below(v.size());
        f(v[i], i);
    }
}
void text_calls(Cat &c, Rng &q, const eg::InternationalizedText *t, const MText &m)
{
    auto *h = (eg_internationalized_text_t *)t;
    c.add("eg_intertnationalized_text_crypto_hash", [=] {
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded("eg_intertnationalized_text_crypto_hash", [&] { return eg_intertnationalized_text_crypto_hash((eg_language_t *)h, &p); });
        check_out("eg_intertnationalized_text_crypto_hash", st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        return show(p);
    });
    u64 n = m.langs.size();
    u64 i = q.below(n);
    AT(eg_internationalized_text_get_text_at_index, h, i, n, n ? m.langs[i].first + "/" + m.langs[i].second : "");
    if (!n)
        return;
    auto *l = (eg_language_t *)&t->getText()[i].get();
    TEXT(eg_language_get_value, l, m.langs[i].first);
    TEXT(eg_language_get_language, l, m.langs[i].second);
    HASH(eg_language_crypto_hash, l);
}
void contact_calls(Cat &c, Rng &q, const eg::ContactInformation *t, const MContact &m)
{
    auto *h = (eg_contact_information_t *)t;
    TEXT(eg_contact_information_get_name, h, t->getName());
    HASH(eg_contact_information_crypto_hash, h);
    auto a = t->getAddressLine();
    u64 n = a.size(), i = q.below(n);
    AT_TEXT(eg_contact_information_get_address_line_at_index, h, i, n, n ? a[i] : "");
    auto em = t->getEmail(), ph = t->getPhone();
    auto line = [&](const char *nm, auto f, auto &v) {
        u64 n = v.size(), i = q.below(n);
        auto g = [=](u64 i) {
            eg_internationalized_text_t *p = sent<eg_internationalized_text_t>();
            int st = guarded(nm, [&] { return f(h, i, &p); });
            check_out(nm, st, p);
            return show_addr(p);
        };
        if (n)
            c.add(nm, [=] { return g(i); });
        c.bad(S(nm) + " out of range", [=] { return g(n); });
        if (n) {
            auto *s = (eg_annotated_string_t *)&v[i].get();
            TEXT(eg_annotated_string_get_annotation, s, v[i].get().getAnnotation());
            TEXT(eg_annotated_string_get_value, s, v[i].get().getValue());
            HASH(eg_annotated_string_crypto_hash, s);
        }
    };
    line("eg_contact_information_get_email_line_at_index", eg_contact_information_get_email_line_at_index, em);
    line("eg_contact_information_get_phone_line_at_index", eg_contact_information_get_phone_line_at_index, ph);
}
void manifest_calls(Cat &c, Rng &q, const eg::Manifest *man, const MMan &m)
{
    auto *h = (eg_election_manifest_t *)man;
    TEXT(eg_election_manifest_get_election_scope_id, h, m.scope);
    HASH(eg_election_manifest_crypto_hash, h);
    if (man->getName()) {
        ADDR(eg_election_manifest_get_name, h);
        text_calls(c, q, man->getName(), m.name);
    }
    if (man->getContactInformation()) {
        ADDR(eg_election_manifest_get_contact_info, h);
        contact_calls(c, q, man->getContactInformation(), m.contact);
    }
    pick<MGeo>(q, m.geos, [&](const MGeo &g, size_t i) {
        AT(eg_election_manifest_get_geopolitical_unit_at_index, h, i, m.geos.size(), g.id);
        auto &o = man->getGeopoliticalUnits()[i].get();
        auto *x = (eg_geopolitical_unit_t *)&o;
        TEXT(eg_geopolitical_unit_get_object_id, x, g.id);
        TEXT(eg_geopolitical_unit_get_name, x, g.name);
        HASH(eg_geopolitical_unit_crypto_hash, x);
        if (o.getContactInformation() && g.c.present)
            contact_calls(c, q, o.getContactInformation(), g.c);
    });
    pick<MParty>(q, m.parties, [&](const MParty &g, size_t i) {
        AT(eg_election_manifest_get_party_at_index, h, i, m.parties.size(), g.id);
        auto &o = man->getParties()[i].get();
        auto *x = (eg_party_t *)&o;
        TEXT(eg_party_get_object_id, x, g.id);
        TEXT(eg_party_get_abbreviation, x, o.getAbbreviation());
        TEXT(eg_party_get_color, x, o.getColor());
        TEXT(eg_party_get_logo_uri, x, o.getLogoUri());
        HASH(eg_party_crypto_hash, x);
        if (g.form >= 1 && g.name.present) {
            ADDR(eg_party_get_name, x);
            text_calls(c, q, o.getName(), g.name);
        }
    });
    pick<MCand>(q, m.cands, [&](const MCand &g, size_t i) {
        AT(eg_election_manifest_get_candidate_at_index, h, i, m.cands.size(), g.id);
        auto &o = man->getCandidates()[i].get();
        auto *x = (eg_candidate_t *)&o;
        TEXT(eg_candidate_get_object_id, x, g.id);
        TEXT(eg_candidate_get_candidate_id, x, o.getCandidateId());
        TEXT(eg_candidate_get_party_id, x, o.getPartyId());
        TEXT(eg_candidate_get_image_uri, x, o.getImageUri());
        HASH(eg_candidate_crypto_hash, x);
        if (o.getName() && g.name.present) {
            ADDR(eg_candidate_get_name, x);
            text_calls(c, q, o.getName(), g.name);
        }
    });
    pick<MStyle>(q, m.styles, [&](const MStyle &g, size_t i) {
        AT(eg_election_manifest_get_ballot_style_at_index, h, i, m.styles.size(), g.id);
        auto &o = man->getBallotStyles()[i].get();
        auto *x = (eg_ballot_style_t *)&o;
        TEXT(eg_ballot_style_get_object_id, x, g.id);
        TEXT(eg_ballot_style_get_image_uri, x, o.getImageUri());
        u64 k = q.below(g.geos.size()), l = q.below(g.parties.size());
        AT_TEXT(eg_ballot_style_get_geopolitical_unit_id_at_index, x, k, g.geos.size(), g.geos.size() ? g.geos[k] : "");
        auto pp = o.getPartyIds();
        AT_TEXT(eg_ballot_style_get_party_id_at_index, x, l, pp.size(), l < pp.size() ? pp[l] : "");
        HASH(eg_ballot_style_crypto_hash, x);
    });
    auto cons = man->getContests();
    if (cons.size()) {
        size_t i = q.below(cons.size());
        auto &o = cons[i].get();
        AT(eg_election_manifest_get_contest_at_index, h, i, cons.size(), o.getObjectId());
        const MCon &g = *find_con(m, o.getObjectId());
        auto *x = (eg_contest_description_t *)&o;
        TEXT(eg_contest_description_get_object_id, x, g.id);
        TEXT(eg_contest_description_get_electoral_district_id, x, g.district);
        TEXT(eg_contest_description_get_name, x, g.name);
        HASH(eg_contest_description_crypto_hash, x);
        if (o.getBallotTitle()) {
            ADDR(eg_contest_description_get_ballot_title, x);
            if (g.title.present)
                text_calls(c, q, o.getBallotTitle(), g.title);
        }
        if (o.getBallotSubtitle())
            ADDR(eg_contest_description_get_ballot_subtitle, x);
        auto ss = o.getSelections();
        u64 k = q.below(ss.size());
        AT(eg_contest_description_get_selection_at_index, x, k, ss.size(), ss.size() ? ss[k].get().getObjectId() : "");
        if (ss.size()) {
            auto &so = ss[k].get();
            auto *s = (eg_selection_description_t *)&so;
            TEXT(eg_selection_description_get_object_id, s, so.getObjectId());
            TEXT(eg_selection_description_get_candidate_id, s, so.getCandidateId());
            HASH(eg_selection_description_crypto_hash, s);
        }
    }
}
void im_calls(Cat &c, Rng &q, const eg::InternalManifest *im, const MMan &m)
{
    auto *h = (eg_internal_manifest_t *)im;
    REF(eg_internal_manifest_get_manifest_hash, h);
    u64 i = q.below(m.geos.size()), j = q.below(m.styles.size());
    AT(eg_internal_manifest_get_geopolitical_unit_at_index, h, i, m.geos.size(), m.geos[i].id);
    AT(eg_internal_manifest_get_ballot_style_at_index, h, j, m.styles.size(), m.styles[j].id);
    auto style = [=](S id) {
        eg_ballot_style_t *p = sent<eg_ballot_style_t>();
        int st = guarded("eg_internal_manifest_get_ballot_style", [&] { return eg_internal_manifest_get_ballot_style(h, cs(id), &p); });
        check_out("eg_internal_manifest_get_ballot_style", st, p);
        return show(p);
    };
    S sid = m.styles[j].id;
    c.want("eg_internal_manifest_get_ballot_style", [=] { return style(sid); }, sid);
    auto cons = im->getContests();
    if (cons.empty())
        return;
    u64 k = q.below(cons.size());
    auto &o = cons[k].get();
    AT(eg_internal_manifest_get_contest_at_index, h, k, cons.size(), o.getObjectId());
    auto *x = (eg_contest_description_with_placeholders_t *)&o;
    auto ph = o.getPlaceholders();
    u64 l = q.below(ph.size());
    u64 pn = ph.size();
    auto place = [=](u64 l) {
        eg_contest_description_with_placeholders_t *p = sent<eg_contest_description_with_placeholders_t>();
        const char *n = "eg_contest_description_with_placeholders_get_placeholder_at_index";
        int st = guarded(n, [&] { return eg_contest_description_with_placeholders_get_placeholder_at_index(x, l, &p); });
        check_out(n, st, p);
        return show_addr(p);
    };
    if (pn)
        c.add("eg_contest_description_with_placeholders_get_placeholder_at_index", [=] { return place(l); });
    c.bad("eg_contest_description_with_placeholders_get_placeholder_at_index out of range", [=] { return place(pn); });
    auto sel = [=](S id) {
        eg_selection_description_t *p = sent<eg_selection_description_t>();
        const char *n = "eg_contest_description_with_placeholders_selection_for_id";
        int st = guarded(n, [&] { return eg_contest_description_with_placeholders_selection_for_id(x, cs(id), &p); });
        check_out(n, st, p);
        return show(p);
    };
    auto ss = o.getSelections();
    if (ss.size()) {
        S id = ss[q.below(ss.size())].get().getObjectId();
        c.want("eg_contest_description_with_placeholders_selection_for_id", [=] { return sel(id); }, id);
    }
    if (q.chance(0.5)) { // the C constructor of a contest with placeholders
        const MCon &g = *find_con(m, o.getObjectId());
        bool parties = q.chance(0.5);
        c.add(parties ? "eg_contest_description_with_placeholders_new_with_parties" : "eg_contest_description_with_placeholders_new", [=, &m] {
            V<UP<eg::SelectionDescription>> a, b;
            V<eg_selection_description_t *> pa, pb;
            for (auto &s : g.sels)
                a.push_back(mk(s)), pa.push_back((eg_selection_description_t *)a.back().get());
            for (auto &s : placeholders(g))
                b.push_back(mk(s)), pb.push_back((eg_selection_description_t *)b.back().get());
            eg_contest_description_with_placeholders_t *p = sent<eg_contest_description_with_placeholders_t>();
            char *party[2] = {(char *)"p1", (char *)"p2"};
            int st = guarded("eg_contest_description_with_placeholders_new", [&] {
                return parties ? eg_contest_description_with_placeholders_new_with_parties(cs(g.id), cs(g.district), g.seq, (eg_vote_variation_type_t)g.variation, g.elected, cs(g.name), pa.data(), pa.size(), party, 2, pb.data(), pb.size(), &p)
                               : eg_contest_description_with_placeholders_new(cs(g.id), cs(g.district), g.seq, (eg_vote_variation_type_t)g.variation, g.elected, cs(g.name), pa.data(), pa.size(), pb.data(), pb.size(), &p);
            });
            check_out("eg_contest_description_with_placeholders_new", st, p);
            Hold<eg_contest_description_with_placeholders_t> k(p, eg_contest_description_with_placeholders_free);
            auto *d = (eg::ContestDescriptionWithPlaceholders *)p;
            Host hh;
            S s = orc::hex(zq(*static_cast<eg::ContestDescription *>(d)->crypto_hash()));
            for (auto &y : d->getPlaceholders())
                s += " " + y.get().getObjectId();
            return s;
        });
    }
}
void plain_calls(Cat &c, Rng &q, const eg::PlaintextBallot *b, const VBal &v)
{
    auto *h = (eg_plaintext_ballot_t *)b;
    TEXT(eg_plaintext_ballot_get_object_id, h, v.id);
    TEXT(eg_plaintext_ballot_get_style_id, h, v.style);
    u64 n = v.cons.size(), i = q.below(n);
    AT(eg_plaintext_ballot_get_contest_at_index, h, i, n, n ? v.cons[i].id : "");
    c.want("building a plaintext ballot in C", [=] {
        struct All {
            V<eg_plaintext_ballot_selection_t *> s;
            V<eg_plaintext_ballot_contest_t *> c;
            ~All()
            {
                for (auto *x : s)
                    eg_plaintext_ballot_selection_free(x);
                for (auto *x : c)
                    eg_plaintext_ballot_contest_free(x);
            }
        } all;
        for (auto &x : v.cons) {
            size_t s0 = all.s.size();
            for (auto &y : x.sels) {
                eg_plaintext_ballot_selection_t *p = sent<eg_plaintext_ballot_selection_t>();
                int st = guarded("eg_plaintext_ballot_selection_new", [&] { return eg_plaintext_ballot_selection_new(cs(y.id), y.vote, false, &p); });
                check_out("eg_plaintext_ballot_selection_new", st, p);
                all.s.push_back(p);
            }
            eg_plaintext_ballot_contest_t *p = sent<eg_plaintext_ballot_contest_t>();
            int st = guarded("eg_plaintext_ballot_contest_new", [&] { return eg_plaintext_ballot_contest_new(cs(x.id), all.s.data() + s0, all.s.size() - s0, &p); });
            check_out("eg_plaintext_ballot_contest_new", st, p);
            all.c.push_back(p);
        }
        eg_plaintext_ballot_t *p = sent<eg_plaintext_ballot_t>();
        int st = guarded("eg_plaintext_ballot_new", [&] { return eg_plaintext_ballot_new(cs(v.id), cs(v.style), all.c.data(), all.c.size(), &p); });
        check_out("eg_plaintext_ballot_new", st, p);
        Hold<eg_plaintext_ballot_t> k(p, eg_plaintext_ballot_free);
        Host hh;
        VBal w = ex(*(eg::PlaintextBallot *)p);
        return canon(w);
    }, [&] {
        VBal w = v;
        for (auto &x : w.cons)
            for (auto &y : x.sels)
                y.writein.clear();
        return canon(w);
    }());
    if (!n)
        return;
    auto &con = b->getContests()[i].get();
    auto *x = (eg_plaintext_ballot_contest_t *)&con;
    TEXT(eg_plaintext_ballot_contest_get_object_id, x, v.cons[i].id);
    u64 k = v.cons[i].sels.size(), j = q.below(k);
    AT(eg_plaintext_ballot_contest_get_selection_at_index, x, j, k, k ? v.cons[i].sels[j].id : "");
    if (!k)
        return;
    auto *s = (eg_plaintext_ballot_selection_t *)&con.getSelections()[j].get();
    TEXT(eg_plaintext_ballot_selection_get_object_id, s, v.cons[i].sels[j].id);
}
void cipher_calls(Cat &c, Rng &q, const eg::CiphertextBallot *b, const eg::CiphertextElectionContext *cx)
{
    auto *h = (eg_ciphertext_ballot_t *)b;
    TEXT(eg_ciphertext_ballot_get_object_id, h, b->getObjectId());
    TEXT(eg_ciphertext_ballot_get_style_id, h, b->getStyleId());
    REF(eg_ciphertext_ballot_get_manifest_hash, h);
    REF(eg_ciphertext_ballot_get_ballot_code_seed, h);
    REF(eg_ciphertext_ballot_get_ballot_code, h);
    REF(eg_ciphertext_ballot_get_nonce, h);
    REF(eg_ciphertext_ballot_get_crypto_hash, h);
    auto *mh = (eg_element_mod_q_t *)cx->getManifestHash();
    c.want("eg_ciphertext_ballot_crypto_hash_with", [=] {
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded("eg_ciphertext_ballot_crypto_hash_with", [&] { return eg_ciphertext_ballot_crypto_hash_with(h, mh, &p); });
        check_out("eg_ciphertext_ballot_crypto_hash_with", st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        return show(p);
    }, orc::hex(zq(*b->getCryptoHash())));
    auto cons = b->getContests();
    u64 n = cons.size(), i = q.below(n);
    AT(eg_ciphertext_ballot_get_contest_at_index, h, i, n, n ? cons[i].get().getObjectId() : "");
    if (!n)
        return;
    auto &co = cons[i].get();
    auto *x = (eg_ciphertext_ballot_contest_t *)&co;
    TEXT(eg_ciphertext_ballot_contest_get_object_id, x, co.getObjectId());
    REF(eg_ciphertext_ballot_contest_get_description_hash, x);
    REF(eg_ciphertext_ballot_contest_get_nonce, x);
    REF(eg_ciphertext_ballot_contest_get_ciphertext_accumulation, x);
    REF(eg_ciphertext_ballot_contest_get_crypto_hash, x);
    auto sels = co.getSelections();
    u64 k = sels.size(), j = q.below(k);
    AT(eg_ciphertext_ballot_contest_get_selection_at_index, x, j, k, k ? sels[j].get().getObjectId() : "");
    auto &so = sels[j].get();
    auto *s = (eg_ciphertext_ballot_selection_t *)&so;
    TEXT(eg_ciphertext_ballot_selection_get_object_id, s, so.getObjectId());
    REF(eg_ciphertext_ballot_selection_get_description_hash, s);
    REF(eg_ciphertext_ballot_selection_get_ciphertext, s);
    REF(eg_ciphertext_ballot_selection_get_crypto_hash, s);
    REF(eg_ciphertext_ballot_selection_get_nonce, s);
    ADDR(eg_ciphertext_ballot_selection_get_proof, s);
    auto *ds = (eg_element_mod_q_t *)so.getDescriptionHash();
    c.add("eg_ciphertext_ballot_selection_crypto_hash_with", [=] {
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded("eg_ciphertext_ballot_selection_crypto_hash_with", [&] { return eg_ciphertext_ballot_selection_crypto_hash_with(s, ds, &p); });
        check_out("eg_ciphertext_ballot_selection_crypto_hash_with", st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        return show(p);
    });
    auto *pr = (eg_disjunctive_chaum_pedersen_proof_t *)so.getProof();
    REF(eg_disjunctive_chaum_pedersen_proof_get_zero_pad, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_zero_data, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_one_pad, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_one_data, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_zero_challenge, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_one_challenge, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_challenge, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_zero_response, pr);
    REF(eg_disjunctive_chaum_pedersen_proof_get_one_response, pr);
    auto *ct = (eg_elgamal_ciphertext_t *)so.getCiphertext();
    REF(eg_elgamal_ciphertext_get_pad, ct);
    REF(eg_elgamal_ciphertext_get_data, ct);
    HASH(eg_elgamal_ciphertext_crypto_hash, ct);
}
Z small(Rng &r, const Z &lim)
{
    Z v = orc::from_bytes(orc::sha256(std::to_string(r.next())));
    switch (r.below(6)) {
    case 0: v >>= r.below(256); break;
    case 1: v = r.below(3); break;
    case 2: v = lim - 1 - r.below(3); break;
    default: break;
    }
    return Z(v % lim);
}
void limbs(const Z &z, uint64_t *d, int n)
{
    Z v = z;
    for (int i = 0; i < n; i++) {
        d[i] = mpz_get_ui(Z(v & Z("18446744073709551615")).get_mpz_t());
        v >>= 64;
    }
}
void group_calls(Cat &c, Rng &q, const Z &K)
{
    Z a = small(q, orc::Q), b = small(q, orc::Q), d = small(q, orc::Q);
    Z pa = q.chance(0.3) ? Z(1 + q.below(4)) : orc::gpow(small(q, orc::Q)), pb = q.chance(0.3) ? Z(orc::P - 1 - q.below(2)) : orc::gpow(small(q, orc::Q));
    using orc::hex;
    auto modq = [](Z x) { return hex(orc::modq(x)); };
    auto modp = [](Z x) { return hex(Z(x % orc::P)); };
    c.want("add_mod_q", [=] { return show(*eg::add_mod_q(*mkq(a), *mkq(b))); }, modq(a + b));
    c.want("sub_mod_q", [=] { return show(*eg::sub_mod_q(*mkq(a), *mkq(b))); }, modq(a + orc::Q - b));
    c.want("a_plus_bc_mod_q", [=] { return show(*eg::a_plus_bc_mod_q(*mkq(a), *mkq(b), *mkq(d))); }, modq(a + b * d));
    c.want("mul_mod_p", [=] { return show(*eg::mul_mod_p(*mkp(pa), *mkp(pb))); }, modp(pa * pb));
    c.want("pow_mod_p", [=] { return show(*eg::pow_mod_p(*mkp(pa), *mkq(a))); }, hex(orc::powm(pa, a)));
    c.want("g_pow_p", [=] { return show(*eg::g_pow_p(*mkq(a))); }, hex(orc::gpow(a)));
    c.want("pow_mod_p of a cached base", [=] {
        auto k = mkp(K);
        k->setIsFixedBase(true);
        return show(*eg::pow_mod_p(*k, *mkq(a)));
    }, hex(orc::powm(K, a)));
    c.want("eg_element_mod_q_pow_mod_p", [=] {
        auto x = mkp(pa);
        auto y = mkq(a);
        eg_element_mod_p_t *p = sent<eg_element_mod_p_t>();
        int st = guarded("eg_element_mod_q_pow_mod_p", [&] { return eg_element_mod_q_pow_mod_p((eg_element_mod_p_t *)x.get(), (eg_element_mod_q_t *)y.get(), &p); });
        check_out("eg_element_mod_q_pow_mod_p", st, p);
        Hold<eg_element_mod_p_t> k(p, eg_element_mod_p_free);
        return show(p);
    }, hex(orc::powm(pa, a)));
    auto newq = [](Z v, bool un) {
        uint64_t l[MAX_Q_LEN];
        limbs(v, l, MAX_Q_LEN);
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded("eg_element_mod_q_new", [&] { return un ? eg_element_mod_q_new_unchecked(l, &p) : eg_element_mod_q_new(l, &p); });
        check_out("eg_element_mod_q_new", st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        return show(p);
    };
    auto newp = [](Z v, bool un) {
        uint64_t l[MAX_P_LEN];
        limbs(v, l, MAX_P_LEN);
        eg_element_mod_p_t *p = sent<eg_element_mod_p_t>();
        int st = guarded("eg_element_mod_p_new", [&] { return un ? eg_element_mod_p_new_unchecked(l, &p) : eg_element_mod_p_new(l, &p); });
        check_out("eg_element_mod_p_new", st, p);
        Hold<eg_element_mod_p_t> k(p, eg_element_mod_p_free);
        return show(p);
    };
    c.want("eg_element_mod_q_new", [=] { return newq(a, false); }, hex(a));
    c.want("eg_element_mod_q_new_unchecked", [=] { return newq(a, true); }, hex(a));
    c.want("eg_element_mod_p_new", [=] { return newp(pa, false); }, hex(pa));
    c.want("eg_element_mod_p_new_unchecked", [=] { return newp(pa, true); }, hex(pa));
    c.bad("eg_element_mod_q_new of Q", [=] { return newq(orc::Q + 1 + (a % 180), false); });
    c.bad("eg_element_mod_p_new of P", [=] { return newp(orc::P + 1 + a, false); });
    auto fromhex = [](S s, bool un) {
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded("eg_element_mod_q_from_hex", [&] { return un ? eg_element_mod_q_from_hex_unchecked(cs(s), &p) : eg_element_mod_q_from_hex(cs(s), &p); });
        check_out("eg_element_mod_q_from_hex", st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        return show(p);
    };
    S ha = hex(a);
    c.want("eg_element_mod_q_from_hex", [=] { return fromhex(ha, false); }, ha);
    c.want("eg_element_mod_q_from_hex_unchecked", [=] { return fromhex(ha, true); }, ha);
    S bh = "7A" + ha.substr(0, 40);
    bh[q.below(2) ? q.below(bh.size() - 1) + 1 : bh.size() - 1] = "GZ-x .\n+"[q.below(8)]; // leading blanks are skipped by design
    c.bad("eg_element_mod_q_from_hex of no hexadecimal text", [=] { return fromhex(bh, false); });
    c.bad("eg_element_mod_q_from_hex of a value beyond the group", [=] { return fromhex(hex(Z(orc::Q + 1 + (a % 100))), false); });
    c.bad("eg_element_mod_q_from_hex of a too long text", [=] { return fromhex("1" + hex(orc::Q), false); });
    c.bad("ElementModP::fromHex of no hexadecimal text", [=] { return show(*eg::ElementModP::fromHex(bh)); });
    auto data = [=](bool isp) {
        UP<eg::ElementModP> x;
        UP<eg::ElementModQ> y;
        isp ? (void)(x = mkp(pa)) : (void)(y = mkq(a));
        uint64_t *p = sent<uint64_t>();
        uint64_t n = 0;
        int st = guarded("eg_element_mod_get_data", [&] { return isp ? eg_element_mod_p_get_data((eg_element_mod_p_t *)x.get(), &p, &n) : eg_element_mod_q_get_data((eg_element_mod_q_t *)y.get(), &p, &n); });
        check_out("eg_element_mod_get_data", st, p);
        Host h;
        Z z = 0;
        for (u64 i = n; i-- > 0;)
            z = (z << 64) + Z(std::to_string(p[i]));
        return hex(z) + fmt(" %lu", n);
    };
    c.want("eg_element_mod_q_get_data", [=] { return data(false); }, hex(a) + " 4");
    c.want("eg_element_mod_p_get_data", [=] { return data(true); }, hex(pa) + " 64");
    auto tohex = [=](bool isp) {
        UP<eg::ElementModP> x;
        UP<eg::ElementModQ> y;
        isp ? (void)(x = mkp(pa)) : (void)(y = mkq(a));
        char *p = sent<char>();
        int st = guarded("eg_element_mod_to_hex", [&] { return isp ? eg_element_mod_p_to_hex((eg_element_mod_p_t *)x.get(), &p) : eg_element_mod_q_to_hex((eg_element_mod_q_t *)y.get(), &p); });
        check_out("eg_element_mod_to_hex", st, p);
        S s;
        {
            Host h;
            Z z(p, 16);
            s = hex(z);
        }
        eg_free_int_ptr(p);
        return s;
    };
    c.want("eg_element_mod_q_to_hex", [=] { return tohex(false); }, hex(a));
    c.want("eg_element_mod_p_to_hex", [=] { return tohex(true); }, hex(pa));
    c.add("eg_constant_to_json", [] {
        char *p = sent<char>();
        uint64_t n = 0;
        int st = guarded("eg_constant_to_json", [&] { return eg_constant_to_json(&p, &n); });
        check_out("eg_constant_to_json", st, p);
        S s;
        {
            Host h;
            s = p;
        }
        eg_free_int_ptr(p);
        if (s.size() + 1 != n)
            violation("c-text", "eg_constant_to_json returned a text whose stated size is not its own");
        return s;
    });
    auto konst = [&](const char *n, auto f, Z w) {
        c.want(n, [=] {
            return f();
        }, hex(w));
    };
#define KONST(F, T, W) \
    konst( \
      #F, [] { T *p = sent<T>(); int st = guarded(#F, [&] { return F(&p); }); check_out(#F, st, p); return show(p); }, W)
    KONST(eg_element_mod_p_constant_g, eg_element_mod_p_t, orc::G);
    KONST(eg_element_mod_p_constant_p, eg_element_mod_p_t, orc::P);
    KONST(eg_element_mod_p_constant_r, eg_element_mod_p_t, Z((orc::P - 1) / orc::Q));
    KONST(eg_element_mod_p_constant_two_mod_p, eg_element_mod_p_t, Z(2));
    KONST(eg_element_mod_q_constant_q, eg_element_mod_q_t, orc::Q);
    KONST(eg_element_mod_q_constant_one_mod_q, eg_element_mod_q_t, Z(1));
    auto &rq = c.add("eg_element_mod_q_rand_q_new", [] {
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded("eg_element_mod_q_rand_q_new", [&] { return eg_element_mod_q_rand_q_new(&p); });
        check_out("eg_element_mod_q_rand_q_new", st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        Host h;
        return S(zq(*(eg::ElementModQ *)p) < orc::Q ? "in range" : "out of range");
    });
    rq.rnd = true;
    auto &rp = c.add("rand_q and rand_p", [] {
        auto x = eg::rand_q();
        auto y = eg::rand_p();
        Host h;
        return S(zq(*x) < orc::Q && zp(*y) < orc::P ? "in range" : "out of range");
    });
    rp.rnd = true;
    // hashing
    S s1 = gen_text(q, true, 20), s2 = gen_text(q, false, 9);
    for (S *s : {&s1, &s2})
        s->erase(std::remove(s->begin(), s->end(), '\0'), s->end());
    u64 u = q.next() >> q.below(64);
    auto hq = [](const char *n, std::function<int(eg_element_mod_q_t **)> f) {
        eg_element_mod_q_t *p = sent<eg_element_mod_q_t>();
        int st = guarded(n, [&] { return f(&p); });
        check_out(n, st, p);
        Hold<eg_element_mod_q_t> k(p, eg_element_mod_q_free);
        return show(p);
    };
    c.add("eg_hash_elems_string", [=] { return hq("eg_hash_elems_string", [&](eg_element_mod_q_t **o) { return eg_hash_elems_string(s1.c_str(), o); }); });
    c.add("eg_hash_elems_strings", [=] {
        const char *v[2] = {s1.c_str(), s2.c_str()};
        return hq("eg_hash_elems_strings", [&](eg_element_mod_q_t **o) { return eg_hash_elems_strings(v, 2, o); });
    });
    c.add("eg_hash_elems_int", [=] { return hq("eg_hash_elems_int", [&](eg_element_mod_q_t **o) { return eg_hash_elems_int(u, o); }); });
    c.add("eg_ballot_code_get_hash_for_device", [=] { return hq("eg_ballot_code_get_hash_for_device", [&](eg_element_mod_q_t **o) { return eg_ballot_code_get_hash_for_device(u, 2, 3, s1.c_str(), o); }); });
    c.want("eg_ballot_code_get_ballot_code", [=] {
        auto x = mkq(a), y = mkq(b);
        return hq("eg_ballot_code_get_ballot_code", [&](eg_element_mod_q_t **o) { return eg_ballot_code_get_ballot_code((eg_element_mod_q_t *)x.get(), u >> 1, (eg_element_mod_q_t *)y.get(), o); });
    }, hex(orc::H().z(a).u(u >> 1).z(b).done()));
}
void list_calls(Cat &c, Rng &q)
{
    // a history of list operations against a model; a failing append leaves the list as it was
    V<int> ops;
    for (int i = 0, n = (int)q.range(1, 8); i < n; i++)
        ops.push_back((int)q.below(5));
    c.add("a linked list", [=] {
        eg_linked_list_t *l = sent<eg_linked_list_t>();
        int st = guarded("eg_linked_list_new", [&] { return eg_linked_list_new(&l); });
        check_out("eg_linked_list_new", st, l);
        Hold<eg_linked_list_t> hold(l, eg_linked_list_free);
        V<std::pair<S, S>> m;
        bool failed = false;
        S out;
        int k = 0;
        for (int o : ops) {
            S key = "key" + std::to_string(k), val(size_t(k * 7), 'v');
            k++;
            if (o < 3) {
                int st = guarded("eg_linked_list_append", [&] { return eg_linked_list_append(l, cs(key), cs(val)); });
                Host h;
                if (st)
                    failed = true;
                else
                    m.push_back({key, val});
            } else if (o == 3) {
                ST(eg_linked_list_delete_last, l);
                if (m.size())
                    m.pop_back();
            }
            if (eg_linked_list_get_count(l) != m.size())
                violation("list", "a list of %zu entries says it has %lu", m.size(), eg_linked_list_get_count(l));
            for (u64 i = 0; i <= m.size(); i++) {
                char *a = nullptr, *b = nullptr, *v = nullptr;
                int s1 = eg_linked_list_get_element_at(l, i, &a, &b), s2 = eg_linked_list_get_value_at(l, i, &v);
                if (i == m.size() ? !s1 || !s2 || a || b || v : s1 || s2 || m[i].first != a || m[i].second != b || m[i].second != v)
                    violation("list", "entry %lu of a list of %zu entries is wrong after %s append", i, m.size(), failed ? "a failed" : "an");
            }
        }
        if (failed)
            throw StatusError("eg_linked_list_append", 1);
        Host h;
        for (auto &x : m)
            out += x.first + "=" + x.second + ";";
        return out;
    });
}
void crypto_calls(Cat &c, Rng &q, const Election &e)
{
    Z sk = small(q, orc::Q - 2) + 2, n = small(q, orc::Q - 1) + 1, seed = small(q, orc::Q), hdr = small(q, orc::Q);
    int ki = e.ki;
    Z K = e.c.K;
    u64 m = q.below(2), big = q.below(60);
    const Z ext = e.c.ext;
    using orc::hex;
    auto keep = [](eg_elgamal_ciphertext_t *p) { return UP<eg::ElGamalCiphertext>((eg::ElGamalCiphertext *)p); };
    auto enc = [=](u64 m) {
        auto x = mkq(n);
        auto k = mkp(K);
        eg_elgamal_ciphertext_t *p = sent<eg_elgamal_ciphertext_t>();
        int st = guarded("eg_elgamal_encrypt", [&] { return eg_elgamal_encrypt(m, (eg_element_mod_q_t *)x.get(), (eg_element_mod_p_t *)k.get(), &p); });
        check_out("eg_elgamal_encrypt", st, p);
        return keep(p);
    };
    c.want("eg_elgamal_encrypt", [=] { return show((eg_elgamal_ciphertext_t *)enc(m).get()); }, hex(orc::gpow(n)) + " " + hex(Z(orc::gpow(m) * orc::powm(K, n) % orc::P)));
    c.want("elgamalEncrypt", [=] { return show((eg_elgamal_ciphertext_t *)eg::elgamalEncrypt(m, *mkq(n), *mkp(K)).get()); }, hex(orc::gpow(n)) + " " + hex(Z(orc::gpow(m) * orc::powm(K, n) % orc::P)));
    c.want("eg_elgamal_ciphertext_decrypt_with_secret", [=] {
        auto ct = enc(m);
        auto s = mkq(key(ki).s);
        uint64_t out = 4242;
        int st = guarded("eg_elgamal_ciphertext_decrypt_with_secret", [&] { return eg_elgamal_ciphertext_decrypt_with_secret((eg_elgamal_ciphertext_t *)ct.get(), (eg_element_mod_q_t *)s.get(), &out); });
        if (st) {
            if (out != 4242)
                violation("handle", "a failed decryption gave %lu", out);
            throw StatusError("eg_elgamal_ciphertext_decrypt_with_secret", st);
        }
        return std::to_string(out);
    }, std::to_string(m));
    c.want("elgamalAdd", [=] {
        auto a = eg::elgamalEncrypt(big, *mkq(n), *mkp(K)), b = eg::elgamalEncrypt(m, *mkq(n), *mkp(K));
        auto s = eg::elgamalAdd({*a, *b});
        return show((eg_elgamal_ciphertext_t *)s.get());
    }, hex(Z(orc::gpow(n) * orc::gpow(n) % orc::P)) + " " + hex(Z(orc::gpow(big + m) * orc::powm(K, n) % orc::P * orc::powm(K, n) % orc::P)));
    c.want("eg_elgamal_keypair_from_secret_new", [=] {
        auto s = mkq(sk);
        eg_elgamal_keypair_t *p = sent<eg_elgamal_keypair_t>();
        int st = guarded("eg_elgamal_keypair_from_secret_new", [&] { return eg_elgamal_keypair_from_secret_new((eg_element_mod_q_t *)s.get(), &p); });
        check_out("eg_elgamal_keypair_from_secret_new", st, p);
        Hold<eg_elgamal_keypair_t> k(p, eg_elgamal_keypair_free);
        eg_element_mod_p_t *pk = nullptr;
        eg_element_mod_q_t *s2 = nullptr;
        ST(eg_elgamal_keypair_get_public_key, p, &pk);
        ST(eg_elgamal_keypair_get_secret_key, p, &s2);
        return show(pk) + " " + show(s2);
    }, hex(orc::gpow(sk)) + " " + hex(sk));
    auto proof = [=](int how) {
        auto ct = enc(m);
        auto r = mkq(n), sdq = mkq(seed), h = mkq(ext);
        auto k = mkp(K);
        auto *cr = (eg_element_mod_q_t *)r.get(), *csd = (eg_element_mod_q_t *)sdq.get(), *ch = (eg_element_mod_q_t *)h.get();
        auto *ck = (eg_element_mod_p_t *)k.get();
        auto *cc = (eg_elgamal_ciphertext_t *)ct.get();
        if (how == 2) {
            eg_constant_chaum_pedersen_proof_t *p = sent<eg_constant_chaum_pedersen_proof_t>();
            int st = guarded("eg_constant_chaum_pedersen_proof_make", [&] { return eg_constant_chaum_pedersen_proof_make(cc, cr, ck, csd, ch, m, &p); });
            check_out("eg_constant_chaum_pedersen_proof_make", st, p);
            Hold<eg_constant_chaum_pedersen_proof_t> hold(p, eg_constant_chaum_pedersen_proof_free);
            eg_element_mod_p_t *a = nullptr, *b = nullptr;
            eg_element_mod_q_t *x = nullptr, *y = nullptr;
            ST(eg_constant_chaum_pedersen_proof_get_pad, p, &a);
            ST(eg_constant_chaum_pedersen_proof_get_data, p, &b);
            ST(eg_constant_chaum_pedersen_proof_get_challenge, p, &x);
            ST(eg_constant_chaum_pedersen_proof_get_response, p, &y);
            Host hh; // the proof may use a precomputed value and then differs from call to call
            return S(((eg::ConstantChaumPedersenProof *)p)->isValid(*ct, *k, *h) && a && b && x && y ? " valid" : " invalid");
        }
        eg_disjunctive_chaum_pedersen_proof_t *p = sent<eg_disjunctive_chaum_pedersen_proof_t>();
        int st = guarded("eg_disjunctive_chaum_pedersen_proof_make", [&] { return how ? eg_disjunctive_chaum_pedersen_proof_make_deterministic(cc, cr, ck, ch, csd, m, &p) : eg_disjunctive_chaum_pedersen_proof_make(cc, cr, ck, ch, m, &p); });
        check_out("eg_disjunctive_chaum_pedersen_proof_make", st, p);
        Hold<eg_disjunctive_chaum_pedersen_proof_t> hold(p, eg_disjunctive_chaum_pedersen_proof_free);
        auto *d = (eg::DisjunctiveChaumPedersenProof *)p;
        S s = how ? show(*d->getProofZeroPad()) + show(*d->getProofOneData()) + show(*d->getProofZeroResponse()) + show(*d->getProofOneResponse()) : S();
        Host hh;
        return s + (d->isValid(*ct, *k, *h) ? " valid" : " invalid");
    };
    c.want("eg_disjunctive_chaum_pedersen_proof_make", [=] { return proof(0); }, " valid").rnd = true;
    c.add("eg_disjunctive_chaum_pedersen_proof_make_deterministic", [=] { return proof(1); });
    c.add("eg_constant_chaum_pedersen_proof_make", [=] { return proof(2); });
    // sealed data
    S txt = gen_text(q, false, 90);
    bool pad = q.chance(0.5);
    c.want("hashed ElGamal", [=] {
        V<u8> d(txt.begin(), txt.end());
        if (!pad)
            d.resize((d.size() + 31) / 32 * 32 + 32);
        auto x = eg::hashedElgamalEncrypt(d, *mkq(n), *mkp(K), *mkq(hdr), pad ? eg::BYTES_512 : eg::NO_PADDING, false);
        auto y = x->decrypt(*mkq(key(ki).s), *mkq(hdr), pad);
        return S(y == d ? "same" : "different");
    }, "same");
    // configuration
    bool over = q.chance(0.5);
    u64 maxb = q.below(1000) + 1;
    c.want("eg_ciphertext_election_context_config_make", [=] {
        eg_context_configuration_t *p = sent<eg_context_configuration_t>();
        int st = guarded("eg_ciphertext_election_context_config_make", [&] { return eg_ciphertext_election_context_config_make(over, maxb, &p); });
        check_out("eg_ciphertext_election_context_config_make", st, p);
        Hold<eg_context_configuration_t> k(p, eg_ciphertext_election_context_config_free);
        bool o = false;
        uint64_t mb = 0;
        ST(eg_ciphertext_election_context_config_get_allowed_overvotes, p, &o);
        ST(eg_ciphertext_election_context_config_get_max_ballots, p, &mb);
        return fmt("%d %lu", o, mb);
    }, fmt("%d %lu", over, maxb));
}
struct W {
    Place p;
    V<Obj> base; // immutable once built
    V<S> was;
    V<S> stored[K_N]; // serialized forms of the base objects
    S im_model;
};
void ctx_calls(Cat &c, Rng &q, const eg::CiphertextElectionContext *x)
{
    auto *h = (eg_ciphertext_election_context_t *)x;
    REF(eg_ciphertext_election_context_get_elgamal_public_key, h);
    REF(eg_ciphertext_election_context_get_commitment_hash, h);
    REF(eg_ciphertext_election_context_get_manifest_hash, h);
    REF(eg_ciphertext_election_context_get_crypto_base_hash, h);
    REF(eg_ciphertext_election_context_get_crypto_extended_base_hash, h);
    c.add("eg_ciphertext_election_context_get_extended_data", [=] {
        eg_linked_list_t *l = sent<eg_linked_list_t>();
        int st = guarded("eg_ciphertext_election_context_get_extended_data", [&] { return eg_ciphertext_election_context_get_extended_data(h, &l); });
        check_out("eg_ciphertext_election_context_get_extended_data", st, l);
        Hold<eg_linked_list_t> k(l, eg_linked_list_free);
        V<S> v;
        for (u64 i = 0; i < eg_linked_list_get_count(l); i++) {
            char *a = nullptr, *b = nullptr;
            ST(eg_linked_list_get_element_at, l, i, &a, &b);
            Host hh;
            v.push_back(S(a) + "=" + b);
        }
        Host hh;
        std::sort(v.begin(), v.end());
        S s;
        for (auto &y : v)
            s += y + ";";
        return s;
    });
}
void store_calls(Cat &c, Rng &q, W &w)
{
    for (auto &o : w.base) {
        const Obj *po = &o;
        for (int k = 0; k < 3; k++) {
            int fm = (int)q.below(FM_N);
            bool capi = q.chance(0.5);
            if (!has_fmt(o.kind, fm, capi))
                continue;
            S nm = S(capi ? "C " : "") + FMN[fm] + " of a " + KIND[o.kind];
            c.add("storing: " + nm, [=] { return put(*po, fm, capi); });
            auto bytes = std::make_shared<S>();
            {
                Res x = lib([&] { *bytes = put(*po, fm, capi); });
                if (!x.ok)
                    violation("refused", "storing a %s failed without any fault: %s", KIND[o.kind], x.err.c_str());
            }
            bool c2 = has_fmt(o.kind, fm, !capi) ? q.chance(0.5) : capi;
            int kind = o.kind;
            c.add("loading: " + nm, [=] {
                Obj n = get(kind, fm, *bytes, c2);
                S s;
                {
                    Host h;
                    s = canon(n);
                }
                n.drop();
                return s;
            });
            // unusable bytes: refused, or read as something
            auto cut = std::make_shared<S>(bytes->substr(0, q.below(bytes->size())));
            if (fm == FM_JSON || q.chance(0.5))
                c.bad("loading a truncated " + nm, [=] {
                    Obj n = get(kind, fm, *cut, c2);
                    n.drop();
                    return S();
                });
        }
    }
}
} // namespace
void p15(u32 inc)
{
    Rng g = gen(15);
    auto wp = std::make_unique<W>();
    W &w = *wp;
    Place &p = w.p;
    PlaceOpt o;
    o.min_threads = 1;
    o.max_threads = g.chance(0.4) ? 3 : 1;
    o.max_ballots = 3;
    o.max_dev = 1;
    o.g.rich = g.chance(0.8);
    o.g.max_con = 2;
    o.g.max_sel = 3;
    o.g.max_elected = 2;
    o.p_buffers = 0.5;
    o.p_filler = 0;
    o.p_verify = 0.2;
    o.p_bad = 0.15;
    o.b.max_writein = 20;
    const double pa = 0.85, pr = 0.4;
    p.plan_all(g, o);
    // every station has a device of its own: the chain is then known exactly
    while (p.devs.size() < p.work.size()) {
        Place::Dev d;
        d.uuid = 7000 + p.devs.size(), d.sess = 1, d.launch = 2, d.loc = "polls";
        p.devs.push_back(std::move(d));
    }
    p.last_fail_by_dev.assign(p.devs.size(), 0);
    for (size_t t = 0; t < p.work.size(); t++)
        for (auto &op : p.work[t])
            op.dev = (int)t;
    Rng r = gen(215);
    int ncalls = (int)r.range(6, 50);
    bool encrypts = r.chance(0.6);
    bool many = r.chance(0.25); // few operations, many fault points each
    if (many)
        ncalls = (int)r.range(2, 6);
    const int tries = many ? 40 : 3;
    const u32 BASE = 400; // contexts of the catalogue calls
    sh->ops = BASE + ncalls;
    if (spec.warm)
        warm_tables(p.e.c.K);
    start(inc);
    int nt = (int)p.work.size();
    V<S> was;
    auto unchanged = [&](const S &after) {
        eval();
        for (size_t i = 0; i < w.base.size(); i++) {
            S s = canon(w.base[i]);
            if (s != was[i])
                violation("changed", "%s changed the %s: %s", after.c_str(), KIND[w.base[i].kind], diff(was[i], s).c_str());
        }
    };
    auto drive = [&](const Call &c, int n, Rng &q) {
        S ref;
        bool have = false;
        u64 N = 0;
        if (c.bad) {
            fired(F_BAD_INPUT);
            Res x = lib([&] { c.f(); });
            eval();
            if (!x.standard)
                violation("nonstandard", "%s threw something that is not a standard exception", c.name.c_str());
            if (x.ok)
                violation("bad-accepted", "%s was accepted", c.name.c_str());
            unchanged(c.name);
            return;
        }
        for (int a = 0; a <= n; a++) {
            u64 arg;
            bool last = a == n;
            if (!last && !(a == 0 && q.chance(0.3))) {
                if (plan(F_ALLOC, c.rnd ? 0.6 : 0.95, 1ull << 40, &arg))
                    arm_alloc(N ? 1 + (arg >> 8) % N : log_pos(arg));
                else if (c.rnd)
                    arm_faults(0, 0.9);
            }
            u64 n0 = alloc_count();
            S res;
            Res x = lib([&] { res = c.f(); });
            u64 n1 = alloc_count();
            bool hit = disarm_faults();
            eval();
            if (hit)
                probe(PR_ALLOC_HIT);
            if (!x.standard)
                violation("nonstandard", "%s threw something that is not a standard exception", c.name.c_str());
            if (!x.ok) {
                probe(PR_FAULT_RETRY);
                if (!hit)
                    violation("refused", "%s failed%s: %s", c.name.c_str(), a ? " although the fault of an earlier attempt is gone" : " without any fault", x.err.c_str());
                if (q.chance(many ? 0.1 : 0.25))
                    unchanged("a failed call (" + c.name + ")");
                continue;
            }
            N = std::max(N, n1 > n0 ? n1 - n0 : n1);
            event(res.data(), res.size());
            if (c.has_want && res != c.want)
                violation("effect", "%s gave %.200s instead of %.200s%s", c.name.c_str(), res.c_str(), c.want.c_str(), hit ? " (an allocation inside it failed)" : "");
            if (c.cmp && have && res != ref)
                violation("effect", "%s gave another result%s: %s", c.name.c_str(), hit ? " when an allocation inside it failed" : " after a failed call", diff(ref, res).c_str());
            ref = res;
            have = true;
        }
        probe(PR_OPS);
    };
    u32 id = 300;
    auto must = [&](const char *name, const S &want, std::function<S()> f) {
        ctx(id++);
        Call c;
        c.name = name;
        c.f = f;
        c.want = want;
        c.has_want = want.size();
        Rng q(id * 77 + spec.seed);
        drive(c, 2, q);
    };
    // the election is built under faults
    const Election &e = p.e;
    Obj man, im, cx, pt, dev;
    bool cman = r.chance(0.5);
    int form = (int)r.below(13);
    must(cman ? "building a manifest in C" : "building a manifest", canon(e.m), [&] {
        Obj n;
        n.kind = K_MAN;
        n.man = cman ? mk_c(e.m) : mk(e.m);
        man = std::move(n);
        Host h;
        return canon(man);
    });
    must("preparing a manifest", canon_im(e.m), [&] {
        Obj n;
        n.kind = K_IM;
        if (cman) {
            eg_internal_manifest_t *x = sent<eg_internal_manifest_t>();
            int st = guarded("eg_internal_manifest_new", [&] { return eg_internal_manifest_new((eg_election_manifest_t *)man.man.get(), &x); });
            check_out("eg_internal_manifest_new", st, x);
            n.im.reset((eg::InternalManifest *)x);
        } else
            n.im = std::make_unique<eg::InternalManifest>(*man.man);
        im = std::move(n);
        Host h;
        return canon(im);
    });
    must(fmt("making a context (form %d)", form).c_str(), "", [&] {
        Obj n;
        n.kind = K_CTX;
        n.ctx = ctx_by(form, e.c);
        cx = std::move(n);
        Host h;
        return canon(cx);
    });
    VBal v = p.work[0][0].v;
    must("building a plaintext ballot", canon(v), [&] {
        Obj n;
        n.kind = K_PLAIN;
        n.pt = mk(v);
        pt = std::move(n);
        Host h;
        return canon(pt);
    });
    {
        Lib l;
        p.e.man = mk(e.m);
        p.e.im = std::make_unique<eg::InternalManifest>(*p.e.man);
        p.e.ctx = mkctx(e.c, r.chance(0.5), false);
    }
    for (auto &d : p.devs) {
        bool cdev = r.chance(0.5);
        must(cdev ? "eg_encryption_device_new" : "making a device", "", [&] {
            UP<eg::EncryptionDevice> n;
            if (cdev) {
                eg_encryption_device_t *x = sent<eg_encryption_device_t>();
                int st = guarded("eg_encryption_device_new", [&] { return eg_encryption_device_new(d.uuid, d.sess, d.launch, d.loc.c_str(), &x); });
                check_out("eg_encryption_device_new", st, x);
                n.reset((eg::EncryptionDevice *)x);
            } else
                n = std::make_unique<eg::EncryptionDevice>(d.uuid, d.sess, d.launch, d.loc);
            d.d = std::move(n);
            return show(*d.d->getHash());
        });
        must(cdev ? "eg_encryption_mediator_new" : "making a mediator", "", [&] {
            if (cdev) {
                eg_encryption_mediator_t *x = sent<eg_encryption_mediator_t>();
                int st = guarded("eg_encryption_mediator_new", [&] { return eg_encryption_mediator_new((eg_internal_manifest_t *)p.e.im.get(), (eg_ciphertext_election_context_t *)p.e.ctx.get(), (eg_encryption_device_t *)d.d.get(), &x); });
                check_out("eg_encryption_mediator_new", st, x);
                d.m.reset((eg::EncryptionMediator *)x);
            } else
                d.m = std::make_unique<eg::EncryptionMediator>(*p.e.im, *p.e.ctx, *d.d);
            return S();
        });
    }
    dev.kind = K_DEV;
    {
        Lib l;
        dev.dev = std::make_unique<eg::EncryptionDevice>(5, 6, 7, "base");
    }
    auto votes = [](const Bal &b) { // what does not depend on the proofs
        S s = b.id + b.style + orc::hex(b.mhash) + orc::hex(b.seed) + orc::hex(b.nonce) + fmt(" %lu", b.ts);
        for (auto &c : b.cons)
            for (auto &x : c.sels)
                s += " " + x.id + "=" + orc::hex(x.pad) + orc::hex(x.data);
        return s;
    };
    auto judge = [&](const VBal &v, const Bal &b, const S &how) {
        S why = check_ids(e.m, v, b, e.c);
        if (why.empty())
            why = check_choices(e.m, v, b, e.c);
        if (why.empty())
            why = check_ext(e.m, v, b, e.c);
        if (why.empty())
            why = orc::verify(b, e.c, spec.seed);
        eval();
        if (why.size())
            violation("ballot", "%s produced a wrong ballot: %s", how.c_str(), why.c_str());
    };
    // base ballots (deterministic up to the clock, which stands still)
    Obj cb, cc, sb, cp;
    clock_stall(true);
    Z n0 = small(r, orc::Q - 1) + 1, sd = small(r, orc::Q);
    u64 ts = 1650000000 + r.below(1000);
    bool needb = r.chance(0.7);
    if (needb) {
        must("encrypting a ballot with a given nonce", "", [&] {
            Obj n;
            n.kind = K_CIPHER_N;
            n.cb = eg::encryptBallot(*pt.pt, *p.e.im, *p.e.ctx, *mkq(sd), mkq(n0), ts, false);
            cb = std::move(n);
            Host h;
            return votes(ex(*cb.cb));
        });
        judge(v, ex(*cb.cb), "encrypting with a given nonce");
        must("submitting a ballot", "", [&] {
            Obj n;
            n.kind = K_SUBMITTED;
            if (cman) {
                eg_submitted_ballot_t *x = sent<eg_submitted_ballot_t>();
                int st = guarded("eg_submitted_ballot_from", [&] { return eg_submitted_ballot_from((eg_ciphertext_ballot_t *)cb.cb.get(), ELECTIONGUARD_BALLOT_BOX_STATE_CAST, &x); });
                check_out("eg_submitted_ballot_from", st, x);
                n.sb.reset((eg::SubmittedBallot *)x);
            } else
                n.sb = eg::SubmittedBallot::from(*cb.cb, eg::BallotBoxState::cast);
            sb = std::move(n);
            Host h;
            return canon(sb);
        });
        must("encrypting a compact ballot with a given nonce", "", [&] {
            Obj n;
            n.kind = K_COMPACT;
            n.cc = eg::encryptCompactBallot(*pt.pt, *p.e.im, *p.e.ctx, *mkq(sd), mkq(n0), ts, false);
            cc = std::move(n);
            Host h;
            return S();
        });
        must("copying a compact plaintext ballot", "", [&] {
            Obj n;
            n.kind = K_COMPACT_PLAIN;
            n.cp = eg::CompactPlaintextBallot::fromMsgPack(cc.cc->getPlaintext()->toMsgPack());
            cp = std::move(n);
            Host h;
            return canon(cp);
        });
    }
    clock_stall(false);
    for (Obj *o : {&man, &im, &cx, &dev, &pt})
        w.base.push_back(std::move(*o));
    if (needb)
        for (Obj *o : {&cb, &sb, &cc, &cp})
            w.base.push_back(std::move(*o));
    for (auto &o : w.base)
        was.push_back(canon(o));
    ctx(CTX_NONE);
    // the catalogue
    Cat cat;
    Rng q = gen(315);
    auto &B = w.base;
    cat.group = 1;
    manifest_calls(cat, q, B[0].man.get(), e.m);
    im_calls(cat, q, B[1].im.get(), e.m);
    ctx_calls(cat, q, B[2].ctx.get());
    plain_calls(cat, q, B[4].pt.get(), v);
    if (needb)
        cipher_calls(cat, q, B[5].cb.get(), p.e.ctx.get());
    cat.group = 2;
    group_calls(cat, q, e.c.K);
    list_calls(cat, q);
    list_calls(cat, q);
    cat.group = 3;
    crypto_calls(cat, q, e);
    cat.group = 4;
    store_calls(cat, q, w);
    cat.group = 5;
    {
        Call *x = &cat.want("building a manifest in C", [&] { Obj n; n.kind = K_MAN; n.man = mk_c(e.m); S s; { Host h; s = canon(n); } n.drop(); return s; }, canon(e.m));
        x = &cat.want("copying a manifest", [&] { Obj n; n.kind = K_MAN; n.man = copy_of(*B[0].man, false, e.m); S s; { Host h; s = canon(n); } n.drop(); return s; }, canon(e.m));
        x = &cat.want("assigning a manifest", [&] { Obj n; n.kind = K_MAN; n.man = copy_of(*B[0].man, true, e.m); S s; { Host h; s = canon(n); } n.drop(); return s; }, canon(e.m));
        for (int k = 0; k < 3; k++) {
            int f = (int)q.below(13);
            cat.add(fmt("making a context (form %d)", f), [&, f] { Obj n; n.kind = K_CTX; n.ctx = ctx_by(f, e.c); S s; { Host h; s = canon(n); } n.drop(); return s; });
        }
        S badhex = orc::hex(e.c.commit);
        badhex[q.below(badhex.size())] = 'X';
        cat.bad("eg_ciphertext_election_context_make_from_hex of no hexadecimal text", [&, badhex] {
            eg_ciphertext_election_context_t *x = sent<eg_ciphertext_election_context_t>();
            S K = orc::hex(e.c.K), m = orc::hex(e.c.mhash);
            int st = guarded("eg_ciphertext_election_context_make_from_hex", [&] { return eg_ciphertext_election_context_make_from_hex(e.c.n, e.c.k, K.c_str(), badhex.c_str(), m.c_str(), &x); });
            check_out("eg_ciphertext_election_context_make_from_hex", st, x);
            return S();
        });
        if (needb) {
            auto *cbp = B[5].cb.get();
            auto *ccp = B[7].cc.get();
            auto *cpp = B[8].cp.get();
            cat.want("verifying a ballot", [&, cbp] { return S(cbp->isValidEncryption(*p.e.ctx->getManifestHash(), *p.e.ctx->getElGamalPublicKey(), *p.e.ctx->getCryptoExtendedBaseHash()) ? "valid" : "invalid"); }, "valid");
            cat.want("expanding a compact plaintext ballot", [&, cpp] { auto x = eg::expandCompactPlaintextBallot(*cpp, *p.e.im); return x->getObjectId(); }, v.id);
            cat.add("expanding a compact ballot", [&, ccp] { auto x = eg::expandCompactCiphertextBallot(*ccp, *p.e.im, *p.e.ctx); Host h; return votes(ex(*x)); }).rnd = true;
            cat.add("encrypting a ballot with a given nonce", [&] { auto x = eg::encryptBallot(*B[4].pt, *p.e.im, *p.e.ctx, *mkq(sd), mkq(n0), ts, false, false); Host h; return votes(ex(*x)); }).rnd = true;
            cat.want("submitting a ballot", [&, cbp] { auto x = eg::SubmittedBallot::from(*cbp, eg::BallotBoxState::cast); Host h; return canon(ex(*x), false); }, canon(B[6]));
            cat.want("copying a ballot's contests", [&, cbp] {
                S s;
                for (auto &c : cbp->getContests())
                    for (auto &x : c.get().getSelections()) {
                        auto k = x.get().getCiphertext()->clone();
                        auto pr = x.get().getProof()->clone();
                        Host h;
                        s += zp(*k->getData()) == zp(*x.get().getCiphertext()->getData()) && zq(*pr->getProofZeroResponse()) == zq(*x.get().getProof()->getProofZeroResponse()) ? "" : "x";
                    }
                return s;
            }, "");
        }
        // one selection, one contest
        const MCon *mc = style_contests(e.m, v.style)[0];
        const MSel ms = mc->sels[q.below(mc->sels.size())];
        bool csel = q.chance(0.5);
        u64 vote = q.below(2);
        cat.add(csel ? "eg_encrypt_selection" : "encryptSelection", [&, ms, csel, vote] {
            auto d = mk(ms);
            auto s = std::make_unique<eg::PlaintextBallotSelection>(ms.id, vote);
            auto ns = mkq(sd);
            UP<eg::CiphertextBallotSelection> x;
            if (csel) {
                eg_ciphertext_ballot_selection_t *y = sent<eg_ciphertext_ballot_selection_t>();
                int st = guarded("eg_encrypt_selection", [&] { return eg_encrypt_selection((eg_plaintext_ballot_selection_t *)s.get(), (eg_selection_description_t *)d.get(), (eg_element_mod_p_t *)p.e.ctx->getElGamalPublicKey(), (eg_element_mod_q_t *)p.e.ctx->getCryptoExtendedBaseHash(), (eg_element_mod_q_t *)ns.get(), false, true, &y); });
                check_out("eg_encrypt_selection", st, y);
                x.reset((eg::CiphertextBallotSelection *)y);
            } else
                x = eg::encryptSelection(*s, *d, *p.e.ctx->getElGamalPublicKey(), *p.e.ctx->getCryptoExtendedBaseHash(), *ns, false, true, false);
            Host h;
            auto y = ex(*x);
            return fmt("%d %lu", y.placeholder, y.seq) + orc::hex(y.desc) + (csel ? "" : orc::hex(y.pad) + orc::hex(y.data)) + (x->isValidEncryption(*x->getDescriptionHash(), *p.e.ctx->getElGamalPublicKey(), *p.e.ctx->getCryptoExtendedBaseHash()) ? " valid" : " invalid");
        });
        cat.add("precompute calls", [&] {
            eg_precompute_init(2);
            ST(eg_precompute_populate, (eg_element_mod_p_t *)p.e.ctx->getElGamalPublicKey());
            int a = 0, b = 0;
            ST(eg_precompute_status, &a, &b);
            return S();
        }).rnd = true;
        cat.add("eg_encryption_device_get_hash", [&] {
            eg_element_mod_q_t *x = sent<eg_element_mod_q_t>();
            int st = guarded("eg_encryption_device_get_hash", [&] { return eg_encryption_device_get_hash((eg_encryption_device_t *)B[3].dev.get(), &x); });
            check_out("eg_encryption_device_get_hash", st, x);
            return show(x);
        });
        (void)x;
    }
    // choose
    V<V<size_t>> by(6);
    for (size_t i = 0; i < cat.v.size(); i++)
        by[cat.v[i].group].push_back(i);
    V<V<std::pair<u32, size_t>>> mine(nt);
    for (int i = 0; i < ncalls; i++) {
        static const double cum[] = {0.35, 0.55, 0.65, 0.9, 1.1};
        double u = q.unit();
        int gr = 1;
        while (gr < 5 && u > cum[gr - 1])
            gr++;
        size_t k = by[gr][q.below(by[gr].size())];
        if (cat.v[k].name == "precompute calls" && (nt > 1 || !p.buffers))
            k = by[2][q.below(by[2].size())];
        mine[i % nt].push_back({BASE + (u32)i, k});
    }
    V<S> chain(p.devs.size());
    auto one_ballot = [&](int t, Place::Op &op, Rng &q) {
        ctx(op.id);
        if (dropped(op.id))
            return;
        u64 arg;
        if (op.bad && plan(F_BAD_INPUT, 1, 1, &arg)) {
            fired(F_BAD_INPUT);
            Place::Op b = op;
            b.v.style = op.badkind & 1 ? "" : "no-such-style";
            Emitted em;
            Res x = p.encrypt(b, em, 0, 0);
            disarm_faults();
            if (x.ok)
                violation("bad-accepted", "a ballot of an unknown style was encrypted");
            if (!x.standard)
                violation("nonstandard", "encryption threw something that is not a standard exception");
        }
        int n = many ? 12 : 3;
        for (int a = 0; a <= n; a++) {
            Emitted em;
            Res x = p.encrypt(op, em, a < n ? pa : 0, a < n && a % 2 ? pr : 0);
            bool hit = disarm_faults();
            if (!x.standard)
                violation("nonstandard", "encryption threw something that is not a standard exception");
            eval();
            if (hit)
                probe(PR_ALLOC_HIT);
            if (!x.ok) {
                if (!hit)
                    violation("refused", "encryption (interface %d) failed although the fault of an earlier attempt is gone: %s", op.api, x.err.c_str());
                probe(PR_FAULT_RETRY);
                if (q.chance(0.25))
                    unchanged("a failed encryption");
                continue;
            }
            probe(PR_BALLOTS);
            Bal b;
            if (em.compact) {
                probe(PR_COMPACT);
                UP<eg::CiphertextBallot> full;
                Call c;
                c.name = "expanding a compact ballot";
                c.f = [&] {
                    full = eg::expandCompactCiphertextBallot(*em.cobj, *p.e.im, *p.e.ctx);
                    Host h;
                    return votes(ex(*full));
                };
                drive(c, 1, q);
                b = ex(*full);
                Lib l;
                full.reset();
            } else
                b = ex(*em.obj);
            judge(op.v, b, fmt("encryption by interface %d", op.api));
            if (is_med(op.api)) {
                S expect = chain[op.dev].size() ? chain[op.dev] : orc::hex(zq(*p.devs[op.dev].d->getHash()));
                if (orc::hex(b.seed) != expect)
                    violation("chain", "after %d attempts the ballot does not continue the chain of its device", a + 1);
                chain[op.dev] = orc::hex(b.code);
                probe(PR_CHAIN_LINKS);
            } else if (b.seed != op.seed)
                violation("ballot", "the ballot has another seed than the one given");
            if (is_nonce(op.api) && b.nonce != op.nonce)
                violation("ballot", "the ballot has another nonce than the one given");
            {
                Lib l;
                em.obj.reset();
                em.cobj.reset();
            }
            if (is_med(op.api) || hit || a == n || q.chance(0.5))
                break;
        }
    };
    if (p.buffers && p.prefill) {
        Lib l;
        eg::PrecomputeBufferContext::init(p.prefill);
        eg::PrecomputeBufferContext::populate(*p.e.ctx->getElGamalPublicKey());
    }
    auto station = [&](int t) {
        Rng q(spec.seed * 31 + (u64)t);
        size_t nb = encrypts ? p.work[t].size() : 0, nc = mine[t].size(), ib = 0, ic = 0;
        while (ib < nb || ic < nc) {
            if (ib < nb && (ic >= nc || q.below(nb + nc) < nb))
                one_ballot(t, p.work[t][ib++], q);
            else {
                auto &m = mine[t][ic++];
                ctx(m.first);
                if (dropped(m.first))
                    continue;
                drive(cat.v[m.second], tries, q);
            }
        }
        ctx(CTX_NONE);
    };
    if (nt == 1)
        station(0);
    else {
        V<int> tids;
        for (int t = 0; t < nt; t++)
            tids.push_back(spawn([&, t] { station(t); }, "station"));
        for (int t : tids)
            join(t);
        probe(PR_MULTI_STATION);
    }
    unchanged("the run");
    sample(fmt("%d calls of a catalogue of %zu, %d threads, %s", ncalls, cat.v.size(), nt, encrypts ? "ballots too" : "no ballots"));
    Lib l;
    for (auto &o : w.base)
        o.drop();
    p.devs.clear();
    wp.release();
}
} // namespace scen
