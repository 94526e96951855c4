#pragma once
#define DATADIR "/sim/share"
#define GETTEXT_PACKAGE "msitools"
#define LOCALEDIR "/sim/share/locale"
#define PACKAGE_BUGREPORT "none"
#define PACKAGE_NAME "msitools"
#define PACKAGE_STRING "msitools 0.0"
#define PACKAGE_VERSION "0.0"
