// The verified text is the repository's own source file, included verbatim.
#include "fly/coders/base64/base64_coder.cpp"
extern "C" const unsigned long vp_sizeof_coder = sizeof(fly::coders::Base64Coder);
