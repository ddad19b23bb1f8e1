SubstructureNotifyMask = 1 << 19
PropertyChangeMask = 1 << 22
