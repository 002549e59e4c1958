#!/usr/bin/env python3
"""Packs the class files of the installed JDK, and of the directories given, into one file:
u32 length + bytes for each, big ones and small ones in a fixed shuffled order."""
import glob, io, random, struct, sys, zipfile
out, most = sys.argv[1], int(sys.argv[2])
classes = []
for path in sorted(glob.glob('/usr/lib/jvm/java-17-openjdk-*/jmods/*.jmod')):
    data = open(path, 'rb').read()[4:]
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for n in sorted(z.namelist()):
            if n.endswith('.class'):
                classes.append(z.read(n))
random.Random(1).shuffle(classes)
with open(out, 'wb') as f:
    for c in classes[:most]:
        f.write(struct.pack('>I', len(c)) + c)
print(len(classes[:most]), 'classes packed of', len(classes))
