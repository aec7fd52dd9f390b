ID='s18-dirwalk-count'; PROP='C02'
NEEDS='a directory without files in it, below the one walked'
BREAKS='an empty directory is never counted as done: the walk never ends'
EDITS=[('util/walkdir.go',"""			w.wg.Done()
		case <-w.fin:""","""			if len(files) > 0 || dir == w.Dir {
				w.wg.Done()
			}
		case <-w.fin:""")]
IMPORTS=['"path/filepath"','"time"','"github.com/hsiaosiyuan0/mole/util"']
DEMO='''func main() {
	go func() { time.Sleep(5 * time.Second); fail("does not end") }()
	d, _ := os.MkdirTemp("", "walk")
	defer os.RemoveAll(d)
	os.MkdirAll(filepath.Join(d, "x", "empty"), 0o755)
	os.WriteFile(filepath.Join(d, "x", "f"), nil, 0o644)
	w := util.NewDirWalker(d, 2, func(string, bool, *util.DirWalker) {})
	w.Walk()
}'''
