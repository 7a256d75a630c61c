
import grain
s = [grain.samplers.IndexSampler(8, grain.sharding.ShardOptions(i, 2), seed=3, num_epochs=1) for i in range(2)]
vals = []
for k in range(8):
    vals.append(s[k % 2][k].rng.integers(1 << 60))
assert len(set(vals)) == 8, vals
