#include <ce/ce.h>
#include <ce/io.h>
#include <ce/nameof.h>
