#ifndef VERIF_SHIM_SQUIDS_VERSION_H
#define VERIF_SHIM_SQUIDS_VERSION_H
#define SQUIDS_VERSION 100300
#define SQUIDS_VERSION_STR "1.3.0"
#endif
