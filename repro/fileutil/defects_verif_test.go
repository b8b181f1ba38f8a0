package fileutil
import ("testing";"os";"path/filepath")
func TestDefectHasLinks(t *testing.T){
 d:=t.TempDir(); a:=filepath.Join(d,"a"); os.WriteFile(a,nil,0644)
 i,_:=os.Lstat(a); if HasLinks(i){t.Fatal("single")}
 os.Link(a,filepath.Join(d,"b"))
 i,_=os.Lstat(a); if !HasLinks(i){t.Fatal("hard link not noticed")}
}
