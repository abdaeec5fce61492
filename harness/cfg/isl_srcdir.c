static const char *srcdir = "/repo";
