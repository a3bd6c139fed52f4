// Stand-in for the HighFive submodule (empty in this checkout): declarations
// only, enough to parse the headers that name HighFive::File.
#ifndef VERIF_HIGHFIVE_STUB
#define VERIF_HIGHFIVE_STUB
namespace HighFive { class File { public: virtual ~File() {} }; }
#endif
