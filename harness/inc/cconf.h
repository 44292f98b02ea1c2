#ifndef _CCONF_H
#define _CCONF_H
#define HAVE_GETTIMEOFDAY
#define HAVE_STRCASECMP
#define HAVE_ALARM
#define HAVE_SELECT
#define USE_INIFILE
#define PACKAGE_VERSION "1.09"
#define SCANTOOL_PROGNAME "freediag"
#define DIAG_TEST_PROGNAME "diag_test"
#define PROJECT_NAME "freediag"
#endif
