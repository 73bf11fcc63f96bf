package idw

import zkutils "github.com/iden3/go-iden3-core/utils/zk"

// setFiles fills a configuration by value, as the API wants.
func setFiles(dst, src *zkutils.ZkFiles) { *dst = *src } //nolint
