"""Which contracts, lemmas and falsifier modes decide which property."""
import os, re

TUS = ["consts.cpp", "strings.cpp"]
# every contract, callees before callers; a caller's proof uses the contracts of its callees
ORDER = ["c_parse.ValidateUnicodeChar", "c_parse.ComputeWhitespaceLength", "c_parse.ReadStringEscapeChar", "c_parse.ReadStringLiteral"]
TEXT = ["c_text." + n for n in ("IntegerToString Integer64ToString UnsignedInteger64ToString GetTextLength FindChar FindCharMax CountChars Hash "
        "CompareText CompareTextMax CompareTextCaseless CompareTextCaselessMax CompareTextLessThan CompareTextLessThanMax CompareTextLessThanCaseless "
        "CompareTextLessThanCaselessMax CompareTextLessEqual CompareTextLessEqualMax CompareTextLessEqualCaseless CompareTextLessEqualCaselessMax "
        "CopyText CopyTextMax ReadUnicodeChar GetUnicodeCharByteCount WriteUnicodeChar GetUnicodeCharCount GetUnicodeCharCountMax GetNextUnicodeCharByteCount").split()]
ORDER += TEXT
STRING = ["c_string." + n for n in ("New NewCopy NewMove NewText NewCounted NewInt NewUInt NewInt64 NewTextInt NewTextUInt NewTextInt64 NewTwo Dtor Purge Resize SetCounted AssignText "
          "AssignCopy AssignMove AssignInt AssignUInt AssignInt64 AppendString AppendText AppendCounted AppendChar AppendInt AppendUInt AppendInt64 AppendUInt64 SetLength Lower Upper "
          "ReplaceChar BNewText BNewCopy BNewCounted BAssignText BAssignCopy BSet BAppendText BAppendCounted BAppendChar BSetLength BNewInt BNewUInt BNewInt64 BAssignInt BAssignUInt "
          "BAssignInt64 BAppendInt BAppendUInt BAppendInt64 BAppendUInt64").split()]
ORDER += STRING
ASSUMED = ["c_value." + n for n in "AppendValue InsertAccounted DestroyArray DestroyObject".split()]
ORDER += ASSUMED
VALUE = ["c_value." + n for n in ("FloatLiteralLength ReadDoubleLiteral ParseString ParseNumber ParseBool "
         "ParseNull ParseArray ParseObject ParseAnyValue").split()]
DOC = ["c_doc.ParseDocument"]
ORDER += VALUE + DOC
FILES = ["c_file." + n for n in "ReadFile WriteFile WriteAgain OpenFile CloseFile FileDtor GetFileSize ParseFile WriteDocument".split()]
ORDER += ["c_file.ParseArrayStub"] + FILES
COPY = ["c_text." + n for n in "GetTextLength CopyText CopyTextMax IntegerToString Integer64ToString UnsignedInteger64ToString".split()]
COST = {"c_file.ReadFile": 80, "c_file.WriteFile": 100, "c_file.WriteAgain": 100, "c_value.FloatLiteralLength": 165, "c_value.ParseObject": 110, "c_value.ParseArray": 30, "c_doc.ParseDocument": 31, "c_value.ReadDoubleLiteral": 9, "c_value.ParseAnyValue": 7,
        "c_parse.ReadStringLiteral": 100, "c_parse.ReadStringEscapeChar": 40, "c_text.IntegerToString": 35, "c_text.Integer64ToString": 60,
        "c_text.UnsignedInteger64ToString": 40, "c_text.CopyTextMax": 60, "c_text.GetUnicodeCharCountMax": 90, "c_text.GetUnicodeCharCount": 26, "c_string.AppendCounted": 80, "c_string.NewTwo": 60, "c_string.SetCounted": 40, "c_string.AppendText": 40}
SCAN = ORDER[:4]
from jspec import Text as _T
LEM = list(_T.LEMMAS)

JSON = ("h_json", True, [])
CONT = ("h_cont", False, [])
TYPED = ("h_cont", False, ["-DTYPED"])


def H(src, mode):
    return (src[0], src[1], src[2], mode)


RULE_J = ("texts made by a grammar-directed generator (all value kinds, escapes, surrogate pairs, raw UTF-8, number forms, nesting, repeated names) and by byte-level "
          "mutation of them, compared with an independent RFC 8259 reference in harness/oracle.h; non-trivial: a text longer than one token that exercises the property's comparison")
RULE_C = ("operation scripts of random bytes interpreted against a reference model (std::map, std::vector, std::string, code point arithmetic); non-trivial: every script "
          "(each compares the full state with the model after every operation)")

PROPS = {
    "C01": dict(contracts=SCAN + VALUE + DOC, lemmas=LEM, harness=[H(JSON, "C01")], rule=RULE_J, level="proof"),
    "C02": dict(contracts=SCAN + VALUE, lemmas=LEM, harness=[H(JSON, "C02")], rule=RULE_J, level="proof"),
    "C03": dict(contracts=SCAN + VALUE + DOC, lemmas=LEM, harness=[H(JSON, "C03")], rule=RULE_J, level="proof"),
    "C04": dict(contracts=SCAN + VALUE + DOC, lemmas=LEM, harness=[H(JSON, "C04")], rule=RULE_J, level="proof"),
    "C05": dict(harness=[H(CONT, "C05")], rule=RULE_C, level="exploration"),
    "C06": dict(harness=[H(CONT, "C06")], rule=RULE_C, level="exploration"),
    "C07": dict(contracts=COPY + STRING, harness=[H(CONT, "C07")], rule=RULE_C, level="exploration"),
    "C08": dict(contracts=SCAN[:1] + TEXT, harness=[H(CONT, "C08")], rule=RULE_C, level="exploration"),
    "C09": dict(harness=[H(JSON, "C09")], rule=RULE_J, level="exploration"),
    "C10": dict(contracts=FILES, harness=[H(JSON, "C10")], rule=RULE_J, level="proof"),
    "C11": dict(harness=[H(TYPED, "C11")], rule=RULE_C, level="exploration"),
    "C12": dict(harness=[H(JSON, "C12")], rule=RULE_J, level="exploration"),
    "C13": dict(contracts=SCAN + VALUE + DOC, lemmas=LEM, harness=[H(JSON, "C13")], rule=RULE_J, level="exploration"),
    "C14": dict(contracts=SCAN + VALUE + DOC, lemmas=LEM, harness=[H(JSON, "C14"), H(TYPED, "C14")], rule=RULE_J, level="exploration", hprocs=3, hbudget=15),
}

TRUSTED = [
    "clang++-18 (C++ to LLVM IR at -O1 without optimisation passes, then sroa and simplifycfg); the shipped compiler may differ",
    "the IR semantics, memory model and verification condition generator in irv/engine.py, irv/loops.py, irv/ir.py",
    "z3",
    "the JSON specification in irv/jspec.py (recursive definitions over byte positions)",
    "operator new returns fresh storage or throws bad_alloc; operator delete and libc strtod/read/write/open/close/fstat behave as their contracts in irv/ state",
]


def level(p):
    return PROPS[p]["level"]


def assumptions(p):
    return PROPS[p].get("assumptions", []) + [
        "texts, strings and arrays shorter than 2^31 bytes (the library's int32 sizes)",
        "single thread, no concurrent modification of the objects involved",
        "machine arithmetic is modelled as fixed-width bit vectors, nothing is treated as mathematical integers",
    ]


def deep(what):
    def check(run, tmp, P):
        r = run(tmp, P, "C03deep")
        return r is not None and not r["ok"]
    return check


FINDINGS = {"deep-nesting": deep}


def known(here, prop):
    out = []
    try:
        txt = open(os.path.join(here, "known-findings.txt")).read()
    except OSError:
        return out
    for l in txt.split("\n"):
        m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", l)
        if m and m.group(1) == prop and m.group(2) in FINDINGS:
            out.append(dict(id=m.group(2), what=m.group(3), check=FINDINGS[m.group(2)](m.group(3))))
    return out


NOT_APPLICABLE = []


def note(p):
    P = PROPS[p]
    n = len(P.get("contracts", ()))
    if P["level"] == "proof":
        return ("every obligation of the %d contracts this property rests on is discharged for all inputs and iterations on every run; the falsifier only supplies failing inputs. "
                "Assumes the items listed in evidence (trusted_base, assumptions)." % n)
    if n:
        return ("%d functions are proved against contracts for all inputs (see evidence: functions_under_contract); the rest of the property is decided by bounded runs "
                "of the real code against an independent reference, labelled bounded, never counted as proved." % n)
    return "bounded runs of the real code against an independent reference model (labelled bounded); no function of this property is under contract yet."
