import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
b, gone, log = build.build_native()
print("native contracts:", b, "anchors lost:", gone)
if b is None:
    print(log[-2000:])
import prove
prove.setup()
sys.exit(0)
