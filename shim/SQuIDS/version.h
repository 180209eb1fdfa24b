// Stand-in for the SQuIDS library, which is not available in this sandbox. See DESIGN.md.
#ifndef SQUIDS_VERSION_H
#define SQUIDS_VERSION_H
#define SQUIDS_VERSION 103000
#define SQUIDS_VERSION_STR "1.3.0-standin"
#endif
