// Constants of /repo needed by the specifications, read from its headers on every run.
#include "C4Json.h"
#define S(x) extern "C" const int VP_##x = (int) C4::Json::Status::x
S(kOk); S(kExpectedBeginingDoubleQuotes); S(kExpectedOpeningSquareBrackets); S(kExpectedOpeningCurlyBraces);
S(kException); S(kNumbersCannotHaveLeadingZeros); S(kTextBufferContentsInvalid); S(kUnterminatedTextBuffer);
S(kExpectedEndOfFile); S(kInvalidValueType); S(kNameNotPresent); S(kInvalidStructuredData); S(kMissingObjectElement);
S(KFileOpenError); S(KFileReadError); S(KFileTooLarge); S(KFileWriteError); S(kFloatInvalid); S(kStringIllegalChar);
