// Model of an election (independent of the library), generator, builders of library objects,
// extraction of library objects into oracle records, simulated disk and durable history.
#pragma once
#include "oracle.h"
#include "rt.h"
#include <electionguard/ballot.hpp>
#include <electionguard/ballot_compact.hpp>
#include <electionguard/election.hpp>
#include <electionguard/encrypt.hpp>
#include <electionguard/group.hpp>
#include <electionguard/manifest.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace eg = electionguard;
namespace w {
using orc::Z;
using sim::Rng;
using sim::u32;
using sim::u64;
using sim::u8;
typedef std::string S;
template <class X> using V = std::vector<X>;
template <class X> using UP = std::unique_ptr<X>;

// ---------------------------------------------------------------- manifest model
struct MText {
    bool present = false;
    V<std::pair<S, S>> langs; // value, language
};
struct MContact {
    bool present = false;
    int form = 3; // constructor used
    S name;
    V<S> addr;
    V<std::pair<S, S>> emails, phones; // annotation, value
};
struct MGeo { S id, name; int type = 0; MContact c; };
struct MParty { S id; int form = 2; MText name; S abbr, color, logo; };
struct MCand { S id; int form = 4; MText name; S party, image; bool writein = false; };
struct MStyle { S id; bool full = false; V<S> geos, parties; S image; };
struct MSel { S id, cand; u64 seq = 0; };
struct MCon {
    S id, district, name;
    u64 seq = 0, elected = 1, allowed = 0;
    int variation = 6;
    int form = 0; // 0 short, 1 short+primary, 2 full, 3 full+primary
    MText title, subtitle;
    V<S> primary;
    V<MSel> sels;
    u64 eff_allowed() const; // what the library's constructor stores
};
struct MMan {
    S scope;
    int type = 1;
    u64 start = 0, end = 0; // seconds
    bool full = false;
    V<MGeo> geos;
    V<MParty> parties;
    V<MCand> cands;
    V<MCon> cons;
    V<MStyle> styles;
    MText name;
    MContact contact;
};
extern const char *ELECTION_TYPES[8], *UNIT_TYPES[29], *VARIATIONS[13];
Z h_text(const MText &);
Z h_contact(const MContact &);
Z h_geo(const MGeo &);
Z h_party(const MParty &);
Z h_cand(const MCand &);
Z h_style(const MStyle &);
Z h_sel(const MSel &);
Z h_con(const MCon &, const V<MSel> &extra = {});
Z h_man(const MMan &);
V<MSel> placeholders(const MCon &);
const MCon *find_con(const MMan &, const S &id);
V<const MCon *> style_contests(const MMan &, const S &style); // sorted by sequence
S iso(u64 sec);

struct GenOpt {
    int max_con = 3, max_sel = 4, max_elected = 3, max_style = 3;
    bool rich = false;     // optional fields of every kind
    bool writeins = true;
    bool wild_text = false; // unusual strings
};
S gen_text(Rng &r, bool wild, size_t maxlen = 12);
MMan gen_manifest(Rng &r, const GenOpt &o);

// ---------------------------------------------------------------- ballots
struct VSel { S id; u64 vote = 0; S writein; };
struct VCon { S id; V<VSel> sels; };
struct VBal { S id, style; V<VCon> cons; };
struct ECon { // expected encrypted contest
    S id;
    u64 seq = 0, elected = 0;
    V<MSel> sels;   // sorted by sequence, then placeholders
    V<int> votes;   // same order
    size_t nreal = 0;
    bool over = false;
    S ext;          // exact extended data
};
struct BalOpt {
    double p_skip_con = 0.15, p_over = 0.15, p_under = 0.3, p_missing = 0.5, p_shuffle = 0.3, p_extra = 0.1;
    size_t max_writein = 40;
    bool wild = false;
};
VBal gen_ballot(Rng &r, const MMan &m, const S &id, const BalOpt &o);
V<ECon> expect(const MMan &m, const VBal &b);
S json_str(const S &s);

// ---------------------------------------------------------------- library objects
Z zp(const eg::ElementModP &e);
Z zq(const eg::ElementModQ &e);
UP<eg::ElementModP> mkp(const Z &z);
UP<eg::ElementModQ> mkq(const Z &z);
UP<eg::InternationalizedText> mk(const MText &);
UP<eg::ContactInformation> mk(const MContact &);
UP<eg::GeopoliticalUnit> mk(const MGeo &);
UP<eg::Party> mk(const MParty &);
UP<eg::Candidate> mk(const MCand &);
UP<eg::BallotStyle> mk(const MStyle &);
UP<eg::SelectionDescription> mk(const MSel &);
UP<eg::ContestDescription> mk(const MCon &);
UP<eg::Manifest> mk(const MMan &);
UP<eg::PlaintextBallot> mk(const VBal &);
orc::Sel ex(eg::CiphertextBallotSelection &s);
orc::Con ex(const eg::CiphertextBallotContest &c);
orc::Bal ex(const eg::CiphertextBallot &b);
orc::Bal ex(const eg::SubmittedBallot &b);
VBal ex(const eg::PlaintextBallot &b);
MMan ex(const eg::Manifest &m);
bool same(const MMan &a, const MMan &b, S &why);
V<S> describe_man(const MMan &m);
V<S> describe_im(const eg::InternalManifest &m);
bool same(const VBal &a, const VBal &b, S &why);

// ---------------------------------------------------------------- an election
struct Key { Z s, K; orc::FB fb; };
void init_keys();
const Key &key(int i);
const int NKEY = 4;
struct Election {
    MMan m;
    orc::Ctx c;
    int ki = 0;
    UP<eg::Manifest> man;
    UP<eg::InternalManifest> im;
    UP<eg::CiphertextElectionContext> ctx;
};
// model side only
Election gen_election(Rng &r, const GenOpt &o);
// library side (call in library scope). fixed: mark the key for the fixed base cache
void build(Election &e, bool fixed, bool hexmake);
UP<eg::CiphertextElectionContext> mkctx(const orc::Ctx &c, bool fixed, bool hexmake);

// ---------------------------------------------------------------- oracles on emitted ballots
// "" or what is wrong
S check_choices(const MMan &m, const VBal &v, const orc::Bal &b, const orc::Ctx &c);
S check_ext(const MMan &m, const VBal &v, const orc::Bal &b, const orc::Ctx &c);
S check_nonces(const MMan &m, const VBal &v, const orc::Bal &b, const orc::Ctx &c, bool derived);
S check_ids(const MMan &m, const VBal &v, const orc::Bal &b, const orc::Ctx &c);

// ---------------------------------------------------------------- simulated disk (survives crashes)
struct Disk {
    static const u32 MAXREC = 400, CAP = 24u << 20;
    struct Rec {
        char name[56];
        u32 off, len;
        u8 synced, alive, damaged, complete;
    };
    u32 n, used;
    u64 hist[4096]; // durable notes of the harness (acknowledged facts)
    u32 nh;
    char text[1u << 20]; // durable text notes
    u32 nt;
    Rec rec[MAXREC];
    u8 data[CAP];
};
extern Disk *disk;
void disk_reset();
int disk_write(const S &name, const S &bytes); // not yet durable
void disk_sync(int i);
void disk_crash();                             // unsynced records: kept, torn or lost
bool disk_read(const S &name, S &out, bool *damaged = nullptr);
void note(u64 a, u64 b = 0, u64 c = 0);

S str(const V<u8> &v);
V<u8> vec(const S &s);
S fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
} // namespace w
