CONSTANT P = 0