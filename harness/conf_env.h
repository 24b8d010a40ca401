/* environment of conf.c: included before conf.c */
#include "fv.h"
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#ifndef FV_NOLOOP
#define FCRON_VERIFY 1
#endif
