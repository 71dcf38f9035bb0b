"""Record the literals of the unchanged tree (run by hand when /repo gets a fix commit)."""
import json, os, common
s, i = common.constants(common.REPO)
json.dump({'strs': sorted(s), 'ints': sorted(i)}, open(os.path.join(common.HERE, 'baseline_literals.json'), 'w'), indent=0, ensure_ascii=True)
