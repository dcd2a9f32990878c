"""compare /opt/vp/test.sh output with the baseline"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
miss = sorted(set(b['stable']) - set(o['passed']))
print("stable", len(b['stable']), "passed", len(o['passed']), "missing", len(miss), miss[:10])
sys.exit(1 if miss else 0)
