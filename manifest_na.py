NA['C23'] = 'goroutine lifetimes are not expressible in function contracts here: the extractor verifies sequential code and models channels as finished sequences'
NA['C24'] = 'decided by reflection-based encoding/json, which has no contract within reach; moreover block,omitempty drops empty blocks, so the property does not hold as stated'
