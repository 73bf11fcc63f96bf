package world

// Subsets lists all subsets of n elements with at most max of them.
func Subsets(n, max int) [][]int {
	var out [][]int
	for m := 0; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) <= max {
			out = append(out, s)
		}
	}
	return out
}

// Perms lists all orders of s.
func Perms(s []int) [][]int {
	if len(s) == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for i := range s {
		rest := append(append([]int{}, s[:i]...), s[i+1:]...)
		for _, p := range Perms(rest) {
			out = append(out, append([]int{s[i]}, p...))
		}
	}
	return out
}

// Orders lists all orders of all subsets with at most max elements.
func Orders(n, max int) [][]int {
	var out [][]int
	for _, s := range Subsets(n, max) {
		out = append(out, Perms(s)...)
	}
	return out
}
