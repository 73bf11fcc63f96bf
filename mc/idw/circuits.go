// Package idw is the world of identities: issuers and holders over the world
// storage, a chain, an off-chain store, circuits and a reference model.
package idw

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"sync"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"verif/mc/vzk"
	"verif/mc/world"
)

// OwnLevels and IssLevels are the depths of the circuits.
const (
	OwnLevels = 6
	IssLevels = 8
)

var le = func(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func hashOf(v *big.Int) (h merkletree.Hash) {
	b := v.Bytes()
	for i := range b {
		if len(b)-1-i < 32 {
			h[len(b)-1-i] = b[i]
		}
	}
	return
}

// RefState is the identity state of three roots.
func RefState(clr, rer, ror merkletree.Hash) merkletree.Hash {
	h, _ := world.RefHash(clr[:], rer[:], ror[:])
	return h
}

// RefID is the identifier of a genesis state.
func RefID(state merkletree.Hash) (id [31]byte) {
	copy(id[2:], state[32-27:])
	s := 0
	for _, b := range id[:29] {
		s += int(b)
	}
	id[29], id[30] = byte(s>>8), byte(s)
	return
}

// RevLeaf and RootLeaf are the leaves of the revocations and roots trees.
func RevLeaf(nonce uint32) (d merkletree.Data) {
	for i := uint(0); i < 4; i++ {
		d[0][i] = byte(nonce >> (8 * i))
		d[4][i] = 0xff
	}
	return
}

func RootLeaf(root merkletree.Hash) (d merkletree.Data) { copy(d[0][:], root[:]); return }

// KOpData is the claim that authorises an operational key.
func KOpData(x, y *big.Int, nonce uint32) (d merkletree.Data) {
	d[0][7] = 1
	d[1][7] = 1
	hx, hy := hashOf(x), hashOf(y)
	copy(d[2][:], hx[:])
	copy(d[3][:], hy[:])
	for i := uint(0); i < 4; i++ {
		d[4][i] = byte(nonce >> (8 * i))
	}
	return
}

// climb computes the root above a node.
func climb(hi, node merkletree.Hash, sib []merkletree.Hash) merkletree.Hash {
	for l := len(sib) - 1; l >= 0; l-- {
		if world.Bit(&hi, l) {
			node, _ = world.RefHash(sib[l][:], node[:])
		} else {
			node, _ = world.RefHash(node[:], sib[l][:])
		}
	}
	return node
}

func depth(sib []merkletree.Hash) []merkletree.Hash {
	n := len(sib)
	for n > 0 && sib[n-1] == merkletree.HashZero {
		n--
	}
	return sib[:n]
}

// exists checks inclusion of a leaf the way the circuits do.
func exists(root merkletree.Hash, d *merkletree.Data, sib []merkletree.Hash) bool {
	return climb(world.RefHi(d), world.RefLeaf(world.RefHi(d), world.RefHv(d)), depth(sib)) == root
}

func notExists(root merkletree.Hash, hi merkletree.Hash, sib []merkletree.Hash, noAux bool, aHi, aHv merkletree.Hash) bool {
	s := depth(sib)
	if noAux {
		return climb(hi, merkletree.HashZero, s) == root
	}
	if aHi == hi || world.Common(&aHi, &hi) < len(s) {
		return false
	}
	return climb(hi, world.RefLeaf(aHi, aHv), s) == root
}

type in map[string]interface{}

func (i in) num(k string) (*big.Int, error) {
	v, ok := i[k].(*big.Int)
	if !ok || v == nil || v.Sign() < 0 {
		return nil, fmt.Errorf("input %s is %T", k, i[k])
	}
	return v, nil
}

func (i in) nums(k string, n int) ([]*big.Int, error) {
	v, ok := i[k].([]*big.Int)
	if !ok || len(v) != n {
		return nil, fmt.Errorf("input %s: %T with %d elements, want %d", k, i[k], len(v), n)
	}
	return v, nil
}

func (i in) sibs(k string, levels int) ([]merkletree.Hash, error) {
	v, err := i.nums(k, levels+1)
	if err != nil {
		return nil, err
	}
	if v[levels].Sign() != 0 {
		return nil, fmt.Errorf("input %s: the last sibling is not zero", k)
	}
	r := make([]merkletree.Hash, len(v))
	for j := range v {
		r[j] = hashOf(v[j])
	}
	return r, nil
}

var (
	pubMu   sync.Mutex
	pubMemo = map[string][2]*big.Int{}
)

func pubOf(sk *big.Int) (x, y *big.Int) {
	pubMu.Lock()
	defer pubMu.Unlock()
	if p, ok := pubMemo[sk.String()]; ok {
		return p[0], p[1]
	}
	p := babyjub.NewPoint().Mul(sk, babyjub.B8)
	pubMemo[sk.String()] = [2]*big.Int{p.X, p.Y}
	return p.X, p.Y
}

// ownership: the key behind sk is authorised in the genesis of id.
func ownership(id, sk *big.Int, sib []merkletree.Hash, clr merkletree.Hash) error {
	x, y := pubOf(sk)
	d := KOpData(x, y, 0)
	if !exists(clr, &d, sib) {
		return fmt.Errorf("the operational key is not under the genesis claims root")
	}
	rt := world.NewRefTree(140)
	rl := RootLeaf(clr)
	rt.Add(&rl)
	want := RefID(RefState(clr, merkletree.HashZero, rt.Root()))
	if le(want[:]).Cmp(id) != 0 {
		return fmt.Errorf("the identifier is not that of the genesis claims root")
	}
	return nil
}

// LE reads a little-endian number.
func LE(b []byte) *big.Int { return le(b) }

// Ownership is the check of the ownership sub-circuit.
func Ownership(id, sk *big.Int, sib []*big.Int, clr *big.Int) error {
	var s []merkletree.Hash
	for _, v := range sib {
		s = append(s, hashOf(v))
	}
	return ownership(id, sk, s, hashOf(clr))
}

func keys(m map[string]interface{}, want ...string) error {
	var got []string
	for k := range m {
		got = append(got, k)
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("inputs %v, want %v", got, want)
	}
	return nil
}

func checkIdState(m map[string]interface{}) ([]*big.Int, error) {
	i := in(m)
	if err := keys(m, "id", "oldIdState", "userPrivateKey", "siblings", "claimsTreeRoot", "newIdState"); err != nil {
		return nil, err
	}
	var v [5]*big.Int
	for j, k := range []string{"id", "oldIdState", "userPrivateKey", "claimsTreeRoot", "newIdState"} {
		x, err := i.num(k)
		if err != nil {
			return nil, err
		}
		v[j] = x
	}
	sib, err := i.sibs("siblings", OwnLevels)
	if err != nil {
		return nil, err
	}
	if err := ownership(v[0], v[2], sib, hashOf(v[3])); err != nil {
		return nil, err
	}
	return []*big.Int{v[0], v[1], v[4]}, nil
}

// CheckCred is the relation of the credential circuit.
func CheckCred(m map[string]interface{}) ([]*big.Int, error) {
	return CheckCredAt(m, OwnLevels, IssLevels, nil)
}

// CheckCredAt is the relation with other depths, and with the identifier of the
// holder given when the claim need not be about the holder.
func CheckCredAt(m map[string]interface{}, ownLevels, issLevels int, holder *big.Int) ([]*big.Int, error) {
	i := in(m)
	if err := keys(m, "claim", "hoKOpSk", "hoClaimKOpMtp", "hoClaimKOpClaimsTreeRoot", "isProofExistMtp",
		"isProofExistClaimsTreeRoot", "isProofValidNotRevMtp", "isProofValidNotRevMtpNoAux",
		"isProofValidNotRevMtpAuxHi", "isProofValidNotRevMtpAuxHv", "isProofValidClaimsTreeRoot",
		"isProofValidRevTreeRoot", "isProofValidRootsTreeRoot", "isProofRootMtp", "isIdenState"); err != nil {
		return nil, err
	}
	n := map[string]*big.Int{}
	for _, k := range []string{"hoKOpSk", "hoClaimKOpClaimsTreeRoot", "isProofExistClaimsTreeRoot",
		"isProofValidNotRevMtpNoAux", "isProofValidNotRevMtpAuxHi", "isProofValidNotRevMtpAuxHv",
		"isProofValidClaimsTreeRoot", "isProofValidRevTreeRoot", "isProofValidRootsTreeRoot", "isIdenState"} {
		x, err := i.num(k)
		if err != nil {
			return nil, err
		}
		n[k] = x
	}
	s := map[string][]merkletree.Hash{}
	for k, l := range map[string]int{"hoClaimKOpMtp": ownLevels, "isProofExistMtp": issLevels,
		"isProofValidNotRevMtp": issLevels, "isProofRootMtp": issLevels} {
		x, err := i.sibs(k, l)
		if err != nil {
			return nil, err
		}
		s[k] = x
	}
	cl, err := i.nums("claim", 8)
	if err != nil {
		return nil, err
	}
	var d merkletree.Data
	for j := range cl {
		h := hashOf(cl[j])
		copy(d[j][:], h[:])
	}
	if !world.InField(&d) {
		return nil, fmt.Errorf("the claim is not in the field")
	}
	// the holder owns the subject of the claim
	if holder == nil {
		if d[0][8]&3 != 2 || d[0][8]&4 != 0 {
			return nil, fmt.Errorf("the claim is not about an identity in its index")
		}
		holder = le(d[1][:31])
	}
	if err := ownership(holder, n["hoKOpSk"], s["hoClaimKOpMtp"], hashOf(n["hoClaimKOpClaimsTreeRoot"])); err != nil {
		return nil, err
	}
	exr := hashOf(n["isProofExistClaimsTreeRoot"])
	if !exists(exr, &d, s["isProofExistMtp"]) {
		return nil, fmt.Errorf("the claim is not under the claims root")
	}
	nonce := uint32(d[4][0]) | uint32(d[4][1])<<8 | uint32(d[4][2])<<16 | uint32(d[4][3])<<24
	rl := RevLeaf(nonce)
	na := n["isProofValidNotRevMtpNoAux"]
	if na.BitLen() > 1 {
		return nil, fmt.Errorf("NoAux is %v", na)
	}
	rer := hashOf(n["isProofValidRevTreeRoot"])
	if !notExists(rer, world.RefHi(&rl), s["isProofValidNotRevMtp"], na.Sign() == 1,
		hashOf(n["isProofValidNotRevMtpAuxHi"]), hashOf(n["isProofValidNotRevMtpAuxHv"])) {
		return nil, fmt.Errorf("the nonce is not shown absent from the revocations")
	}
	ror := hashOf(n["isProofValidRootsTreeRoot"])
	root := RootLeaf(exr)
	if !exists(ror, &root, s["isProofRootMtp"]) {
		return nil, fmt.Errorf("the claims root is not in the roots tree")
	}
	if RefState(hashOf(n["isProofValidClaimsTreeRoot"]), rer, ror) != hashOf(n["isIdenState"]) {
		return nil, fmt.Errorf("the roots are not those of the state")
	}
	return []*big.Int{n["isIdenState"]}, nil
}

// CheckIdState is the relation of the state update circuit.
var CheckIdState = checkIdState

// Zk is the set of artefacts.
type Zk struct {
	Conf  *issuer.IdenStateZkProofConf
	Cred  *zkutils.ZkFiles
	Vk    *zktypes.Vk
	State map[string][]byte
}

var zkOnce sync.Once
var zk *Zk

// Artefacts are the names of the artefacts.
var Artefacts = []string{"proving_key.json", "verification_key.json", "circuit.wasm"}

// Artefact is an artefact of a circuit.
func Artefact(i int, circuit string) []byte {
	return vzk.File([]string{"pk", "vk", "wasm"}[i], circuit, "")
}

func artefacts(dir, circuit string) (*zkutils.ZkFiles, map[string][]byte) {
	files := map[string][]byte{}
	for i, n := range Artefacts {
		files[n] = Artefact(i, circuit)
	}
	return FilesOf(dir, files, true), files
}

// FilesOf are artefacts with the given content, not loaded yet, the proving
// key kept in memory or not. Nothing can be downloaded.
func FilesOf(dir string, files map[string][]byte, cache bool) *zkutils.ZkFiles {
	p := filepath.Join(world.Scratch(), dir)
	if err := os.MkdirAll(p, 0700); err != nil {
		panic(err)
	}
	h := map[string]string{}
	for n, b := range files {
		if err := ioutil.WriteFile(filepath.Join(p, n), b, 0600); err != nil {
			panic(err)
		}
		s := sha256.Sum256(b)
		h[n] = hex.EncodeToString(s[:])
	}
	return zkutils.NewZkFiles("http://127.0.0.1:9", p, zkutils.ProvingKeyFormatJSON, zkutils.ZkFilesHashes{
		ProvingKey: h["proving_key.json"], VerificationKey: h["verification_key.json"], WitnessCalcWASM: h["circuit.wasm"],
	}, cache)
}

// TheZk makes the artefacts once.
func TheZk() *Zk {
	zkOnce.Do(func() {
		vzk.Register(&vzk.Circuit{Name: "idstate", NPublic: 3, Check: checkIdState})
		vzk.Register(&vzk.Circuit{Name: "cred", NPublic: 1, Check: CheckCred})
		st, files := artefacts("zkstate", "idstate")
		cr, _ := artefacts("zkcred", "cred")
		zk = &Zk{Cred: cr, State: files}
		zk.Conf = &issuer.IdenStateZkProofConf{Levels: OwnLevels}
		setFiles(&zk.Conf.Files, st)
		if err := zk.Conf.Files.LoadAll(); err != nil {
			panic(err)
		}
		if err := zk.Cred.LoadAll(); err != nil {
			panic(err)
		}
		vk, err := zk.Conf.Files.VerificationKey()
		if err != nil {
			panic(err)
		}
		zk.Vk = vk
	})
	return zk
}

// Files are the artefacts of a circuit.
func Files(dir, circuit string) *zkutils.ZkFiles {
	f, _ := artefacts(dir, circuit)
	if err := f.LoadAll(); err != nil {
		panic(err)
	}
	return f
}
