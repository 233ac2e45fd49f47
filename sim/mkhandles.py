# Generates storage for every predefined Open MPI handle symbol named in mpi.h.
import re, subprocess, sys
inc = sys.argv[1]
t = open(inc + "/mpi.h").read()
names = sorted(set(re.findall(r'OMPI_DECLSPEC extern struct \w+ (\w+);', t)))
print("/* generated */")
for n in names:
    print("char %s[256] __attribute__((aligned(64)));" % n)
for n in ("MPI_F_STATUS_IGNORE", "MPI_F_STATUSES_IGNORE"):
    print("int *%s;" % n)
print("int MPIR_F08_MPI_IN_PLACE;")
