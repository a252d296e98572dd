// Simulated test programs: property bodies assembled from steps (picks, logs,
// tags, assertions, nested checks, throws of every kind), a recorder of what
// each executed case really did, and a listener that checks every event of a
// check against that record.
#pragma once
#include "zoo.h"
#include "detail/Testing.h"
#include <memory>

namespace prog {

using zoo::Spec;
using zoo::Val;
using CaseType = rc::detail::CaseResult::Type;

enum StepKind {
  SPick, SPickMany, SLog, SLogStream, STag, SClassify, SReport,
  // conditional endings
  SAssert, SAssertFalse, SAssertThrows, SAssertThrowsAs, SFail, SPre, SDiscard, SSucceed, SSucceedIf,
  SThrowStd, SThrowString, SThrowInt, SThrowCustom, SThrowGenFailure, SThrowResult, SThrowBadAlloc, SThrowCStr,
  SNested, SFault,
  NumSteps
};

struct Body;
struct Step {
  int kind = SLog;
  Spec spec;            // picks
  bool named = false;
  int cond = 0;         // 0 never, 1 always, m>1: hash(inputs) % m == 0, -1: measure(inputs) >= threshold
  long long threshold = 0;
  int t = 0;            // variant
  std::shared_ptr<Body> nested;
  std::uint64_t seed = 0;
  bool swallow = false; // the body catches what this step throws and goes on
};
struct Body {
  int id = 0;
  int slot = 0, arity = 0;
  int ret = 0;          // 0 void, 1 bool, 2 string, 3 CaseResult
  int retCond = 0;      // when the returned value is a failure
  long long retThreshold = 0;
  std::uint32_t seed = 0;
  std::vector<Step> steps;
  std::string str() const;
};

const int kSlots = 4;
extern Spec slotSpecs[kSlots];

struct BodyOpts {
  int arities = 3;
  int maxSteps = 6;
  int nestDepth = 0;
  bool picks = true;
  bool endings = true;
  bool throwingGens = false, rejectingGens = false;
  int genDepth = 1;
  bool monotone = false;  // fails exactly when a measure crosses a threshold
  bool faults = false;    // transient faults armed in bodies
};
/// Fresh global state at the start of a run.
void reset(const char *property);
void drawSlots(sim::Sim &s, const BodyOpts &o);
std::shared_ptr<Body> drawBody(sim::Sim &s, const BodyOpts &o, int depth = 0);
rc::detail::Property makeProperty(std::shared_ptr<Body> b);

/// What one execution of a body did, as the body itself saw it.
struct Exec {
  int body = 0;
  std::uint64_t ordinal = 0;
  std::vector<Val> args;
  std::vector<std::pair<std::string, Val>> picks;   // name ("" if none), value
  bool pickThrew = false;
  CaseType type = CaseType::Success;
  std::vector<std::string> must;      // tokens the description has to contain
  std::vector<std::string> logs;      // tokens logged
  rc::detail::Tags tags;
  bool argsThrew = false;             // generating the arguments threw: the body never ran
  bool finished = false;
  void report(CaseType t, const std::string &token);
  std::string inputs() const;
  std::string str() const;
};

/// Records of one running check.
struct Frame {
  const Body *body = nullptr;
  std::vector<Exec> execs;
  std::size_t announced = 0;
  bool running = false;          // a body is executing
  std::size_t argsThrewAfter = static_cast<std::size_t>(-1);  // number of executions when generating arguments last threw
};
extern std::vector<Frame *> frames;
extern bool ordinalTokens;     // unique tokens per execution (for leak checks)
extern std::uint64_t execCounter;
extern std::string focus;      // the property whose violations are reported
extern bool disableNested;     // nested checks are left out
extern int flakyMod;           // >0: a body's conditional endings also depend on the execution count

/// Reports a violation if the property in focus is one of `props`.
void viol(const char *props, const std::string &cls, const std::string &msg);

struct Event {
  char kind = 0;              // 'c' case, 's' shrink, 'f' finished
  CaseType type = CaseType::Success;
  bool accepted = false;
  std::string inputs;
  std::string desc;
  rc::detail::Tags tags;
};

/// A listener verifying each event against the frame's execution records.
class CheckingListener : public rc::detail::TestListener {
public:
  explicit CheckingListener(Frame &f) : m_frame(f) {}
  void onTestCaseFinished(const rc::detail::CaseDescription &d) override;
  void onShrinkTried(const rc::detail::CaseDescription &d, bool accepted) override;
  void onTestFinished(const rc::detail::TestMetadata &m, const rc::detail::TestResult &r) override;
  std::vector<Event> events;
  std::uint64_t stepsUpTo = 0; // abandons the run beyond (0: never)
  int finished = 0;
  int throwAt = -1;           // event index at which the listener throws
  bool examples = true;       // compare the displayed example of each case
  std::string lastId;

private:
  void common(const rc::detail::CaseDescription &d, Event &e, bool search);
  Frame &m_frame;
};

void checkDescription(const Exec &e, const std::string &description, const char *where);
void checkExample(const Exec &e, const rc::detail::Example &ex, const char *where);

struct Report {
  bool escaped = false;        // an exception left the check
  std::string escapedWhat;
  rc::detail::TestResult result{rc::detail::SuccessResult()};
  std::vector<Event> events;
  std::vector<Exec> execs;
  std::vector<std::string> trace;
  bool lastRan = false;        // the last execution is the one that was reported
  bool isFailure() const { return !escaped && result.is<rc::detail::FailureResult>(); }
  bool isSuccess() const { return !escaped && result.is<rc::detail::SuccessResult>(); }
  bool isGaveUp() const { return !escaped && result.is<rc::detail::GaveUpResult>(); }
  bool isError() const { return !escaped && result.is<rc::detail::Error>(); }
};
struct CheckOpts {
  std::string id;
  int throwAt = -1;
  bool examples = true;
  bool viaCheckProperty = false;   // through checkProperty with an empty reproduce map
  const rc::detail::Property *property = nullptr; // an existing property object of that body
  rc::detail::TestListener *also = nullptr;       // a second listener
};
/// Runs one check with full verification of events and verdict.
Report runCheck(std::shared_ptr<Body> b, const rc::detail::TestParams &params, const CheckOpts &o = CheckOpts());
/// The same, replaying recorded failures.
Report runReproduce(std::shared_ptr<Body> b, const rc::detail::TestParams &params, const std::string &id,
                    const std::unordered_map<std::string, rc::detail::Reproduce> &map, rc::detail::TestListener *l = nullptr);
std::string resultStr(const rc::detail::TestResult &r);
rc::detail::TestParams drawParams(sim::Sim &s, int maxSize);
std::string typeName(CaseType t);
int paramSize(sim::Sim &s);
/// A check during which memory runs out at a drawn allocation, in user code or
/// in the library; only std::bad_alloc may leave it. Not verified otherwise: what
/// is judged is whether anything after it is affected.
void starvedCheck(sim::Sim &s);
/// The context outside of every check: no picks, no property context.
void checkOutside(sim::Sim &s);

long long measure(const std::vector<Val> &vs);
long long measure(const Val &v);

} // namespace prog
