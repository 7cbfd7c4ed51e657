NOTES = {
 'P01': 'Every function of the coder is under contract for all inputs; the stream loops carry inductive invariants; round trip is a lemma over the contracts.',
}
NA = {
 'P26': 'Depends on the history of an external file system and on monitor events delivered by another thread; per-call contracts cannot express eventual reload.',
 'P27': 'A whole-history property of the kernel inotify interface and a poll thread; the deciding behaviour is outside any function contract.',
 'P28': 'Whole-history property of the operating system socket layer and of callbacks run by other threads; contracts on the system calls would assume what is to be shown.',
 'P29': 'Needs correctly rounded decimal conversion of long double performed inside the C++ library streams; floating point text conversion is outside the verifier.',
}
