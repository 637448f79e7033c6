// the classes of h264.fl are not used by h264nal.h
