//go:build verif

package serializables

import (
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
)

// SpecPlace: the elements of the path, each below the one before.
func SpecPlace(u *url.URL) string {
	return vspec.Fold(filepath.Join(u.Scheme, u.Hostname()), strings.Split(u.Path, "/"), func(d, s string) string { return filepath.Join(d, s) })
}

// A place is named by the scheme, the host name and the path of the URL alone.
// A URL without scheme or host or one that goes up is refused.
func Ensures_UrlToFilename__place(urlStr string, r string, err error) bool {
	u, perr := url.Parse(urlStr)
	if perr != nil {
		return r == "" && err != nil
	}
	host := u.Hostname()
	if u.Scheme == "" || host == "" || host == "." || host == ".." || vspec.Exists(strings.Split(u.Path, "/"), func(s string) bool { return s == ".." }) {
		return r == "" && err != nil
	}
	return err == nil && r == filepath.Join(GlobalTaxonomySetPath, "concepts", SpecPlace(u))
}

func Ensures_DiscoverGlobalFile__read(urlStr string, r []byte, err error) bool {
	name, nerr := UrlToFilename(urlStr)
	if nerr != nil {
		return len(r) == 0 && err != nil
	}
	want, werr := os.ReadFile(name)
	return vspec.Eq(r, want) && (err == nil) == (werr == nil)
}
