// Attribution: which deviations are breaches of which property. All properties of a role share one checker; a
// deviation from the specification that is another property's business does not make this property's check fail.
// Lists name what is NOT a breach of the property (when in doubt a deviation stays in).
#include "vh.hpp"
static const char INIT_M[] = "driver-init not-subscribed send-in-init ", INIT_S[] = "driver-init not-subscribed reception ";
static const char ERRF[] = "wrong-report null-report wrong-error-kind ", REFUSE[] = "invalid-accepted wrong-refusal-code request-refused queue-overrun ",
    FRAME[] = "wrong-request-frame retry-differs wrong-order caller-data-changed ", TMO[] = "early-timeout no-timeout ",
    DATA[] = "wrong-callback incomplete-data delivery-without-answer ", RETRY[] = "no-retry too-few-retries no-error-report unexpected-error-report ",
    SDATA[] = "wrong-bit-data wrong-reg-data ", SRESP[] = "wrong-response no-response response-to-bad-frame ";
struct Scope { std::string id, out; };
static const std::vector<Scope> &scopes() {
    typedef std::string S;
    static const std::vector<Scope> v = {
        {"S01", S(SDATA) + INIT_S + "answer-after-init :exc :unreg :len :bad"},
        {"S02", S(INIT_S) + SRESP + "early-response several-responses answer-after-init"},
        {"S03", S(INIT_S) + "wrong-response:valid no-response:valid :unreg :bad :len early-response"},
        {"S04", INIT_S},
        {"S05", S(INIT_S) + ":valid :exc :unreg early-response"},
        {"S06", S(INIT_S) + SDATA},
        {"S07", S(INIT_S) + SRESP + "early-response several-responses answer-after-init"},
        {"S08", S(INIT_S) + "early-response several-responses :exc :len :bad"},
        {"S09", S(INIT_S) + SDATA + "wrong-response response-to-bad-frame"},
        {"S10", ""},
        {"M01", S(ERRF) + INIT_M + TMO + DATA + RETRY + REFUSE + "no-delivery disturbed-by-foreign early-outcome unexpected-callback unexpected-timeout"},
        {"M02", S(ERRF) + INIT_M + TMO + DATA + RETRY + "disturbed-by-foreign"},
        {"M03", S(ERRF) + INIT_M + TMO + DATA + "caller-data-changed"},
        {"M04", S(INIT_M) + "wrong-request-frame retry-differs caller-data-changed invalid-accepted wrong-refusal-code queue-overrun wrong-error-kind wrong-callback"},
        {"M05", S(ERRF) + INIT_M + REFUSE + FRAME + TMO + "wrong-callback:confirmation wrong-callback:exception no-retry no-error-report too-few-retries"},
        {"M06", S(ERRF) + INIT_M + REFUSE + FRAME + TMO + "wrong-callback:data no-retry no-error-report too-few-retries"},
        {"M07", S(ERRF) + INIT_M + REFUSE + FRAME + TMO + "wrong-callback incomplete-data"},
        {"M08", S(INIT_M) + REFUSE + TMO + "wrong-report null-report wrong-callback caller-data-changed wrong-request-frame"},
        {"M09", S(INIT_M) + ERRF + REFUSE + FRAME + DATA + RETRY},
        {"M10", S(INIT_M) + REFUSE + FRAME + "wrong-report null-report"},
        {"M11", S(INIT_M) + REFUSE + FRAME + TMO + DATA + "no-retry too-few-retries no-error-report no-delivery disturbed-by-foreign early-outcome"},
        {"M12", S(INIT_M) + ERRF + REFUSE + TMO + DATA + RETRY + "no-delivery disturbed-by-foreign early-outcome unexpected-callback unexpected-timeout"},
        {"M13", S(INIT_M) + ERRF + REFUSE + DATA + RETRY + FRAME + "no-delivery no-timeout"},
        {"M14", S(ERRF) + DATA + "caller-data-changed invalid-accepted"},
        {"X01", S(INIT_M) + ERRF + REFUSE + TMO},
    };
    return v;
}
static std::vector<std::string> out_; static bool set_ = false, only_ = false;
static const char ONLY[] = " send-outside-poll driver-outside-poll memory-outside-poll callback-outside-poll send-in-api callback-in-api send-in-init hang waits ";
void scope_set(const char *prop) {
    out_.clear(); set_ = true; only_ = !strcmp(prop, "X07");
    for (auto &s : scopes()) if (s.id == prop) {
        size_t b = 0;
        while (b < s.out.size()) { size_t e = s.out.find(' ', b); if (e == std::string::npos) e = s.out.size(); if (e > b) out_.push_back(s.out.substr(b, e - b)); b = e + 1; }
    }
}
// patterns: a key, a key of any class (key without :class), or a class (:class, which includes :class-...)
bool scope_excludes(const char *key) {
    std::string k = key; size_t c = k.find(':');
    if (only_) return !strstr(ONLY, (" " + k + " ").c_str());
    for (auto &p : out_) if (p == k || (c != std::string::npos && (p == k.substr(0, c) || p == k.substr(c) || (p[0] == ':' && !k.compare(c, p.size() + 1, p + "-"))))) return true;
    return false;
}
// deviations after which a case can go on
bool scope_soft(const char *key) {
    static const std::string soft = std::string(" ") + "driver-init not-subscribed reception wrong-report wrong-error-kind wrong-request-frame retry-differs caller-data-changed wrong-refusal-code wrong-callback early-timeout tx-buffer-changed wrong-bit-data wrong-reg-data ";
    std::string k = key; k = k.substr(0, k.find(':'));
    return soft.find(" " + k + " ") != std::string::npos;
}
