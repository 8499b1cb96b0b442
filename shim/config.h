/* Fixed configuration for the verification builds (cf. /repo/build-cmake/config.h.in). */
#define PACKAGE_BUGREPORT "bugs"
#define PACKAGE_NAME "ginga"
#define PACKAGE_STRING "ginga"
#define PACKAGE_URL "url"
#define PACKAGE_VERSION "1.0"
#define TOP_SRCDIR "/repo/"
#define ABS_TOP_SRCDIR "/repo/"
#define GINGADATADIR "/usr/share/ginga/"
#define GINGABINDIR "/usr/bin"
