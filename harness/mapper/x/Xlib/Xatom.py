ATOM = 4
