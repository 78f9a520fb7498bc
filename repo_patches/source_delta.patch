From b17c05aaf718439cd6b1502f0c7e54003ac829e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 01/34] fix: token bucket admits calls when the token count is
 negative

---
 common/limiter/token_bucket/token_bucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index fb23634..29aeac4 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -37,7 +37,7 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	}
 
 	// 如果没有令牌，请求失败
-	if l.currentTokens == 0 {
+	if l.currentTokens <= 0 {
 		return false
 	}
 	// 如果有令牌，当前令牌-1，请求成功
-- 
2.43.0


From a36394cfa9b7914483e43f236c1a1b64a65eab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 02/34] fix: sliding limiters reject non-positive windows and
 do not modify the caller's strategies

---
 common/limiter/sliding_log/sliding_log.go       | 11 ++++++++++-
 common/limiter/sliding_window/sliding_window.go |  5 +++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 671b10b..6a0fc6b 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -43,12 +43,21 @@ type SlidingLogLimiter struct {
 func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLimiterStrategy) (*SlidingLogLimiter, error) {
 	// 复制策略避免被修改
 	strategies = append(make([]*SlidingLogLimiterStrategy, 0, len(strategies)), strategies...)
+	for i, strategy := range strategies {
+		copied := *strategy
+		strategies[i] = &copied
+	}
 
 	// 不能不设置策略
 	if len(strategies) == 0 {
 		return nil, errors.New("must be set strategies")
 	}
 
+	// 小窗口时间必须为正
+	if smallWindow <= 0 {
+		return nil, errors.New("small window must be positive")
+	}
+
 	// 排序策略，窗口时间大的排前面，相同窗口上限大的排前面
 	sort.Slice(strategies, func(i, j int) bool {
 		a, b := strategies[i], strategies[j]
@@ -66,7 +75,7 @@ func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLi
 			}
 		}
 		// 窗口时间必须能够被小窗口时间整除
-		if strategy.window%int64(smallWindow) != 0 {
+		if strategy.window <= 0 || strategy.window%int64(smallWindow) != 0 {
 			return nil, errors.New("window cannot be split by integers")
 		}
 		strategy.smallWindows = strategy.window / int64(smallWindow)
diff --git a/common/limiter/sliding_window/sliding_window.go b/common/limiter/sliding_window/sliding_window.go
index 8896332..8aaa633 100644
--- a/common/limiter/sliding_window/sliding_window.go
+++ b/common/limiter/sliding_window/sliding_window.go
@@ -17,6 +17,11 @@ type SlidingWindowLimiter struct {
 }
 
 func NewSlidingWindowLimiter(limit int, window, smallWindow time.Duration) (*SlidingWindowLimiter, error) {
+	// 窗口时间和小窗口时间必须为正
+	if window <= 0 || smallWindow <= 0 {
+		return nil, errors.New("window and small window must be positive")
+	}
+
 	// 窗口时间必须能够被小窗口时间整除
 	if window%smallWindow != 0 {
 		return nil, errors.New("window cannot be split by integers")
-- 
2.43.0


From d7f36fa6b2330b989c982203a34b73114ee1e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 03/34] fix: WriteCsv writes the given row and reports seek and
 flush errors

---
 help/utils/csv.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index b46d7bf..b08f55d 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -45,18 +45,19 @@ func WriteCsv(path string, content []string) error {
 	}
 	defer nfs.Close()
 
-	nfs.Seek(0, io.SeekEnd)
+	if _, err = nfs.Seek(0, io.SeekEnd); err != nil {
+		return err
+	}
 
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
 	w.UseCRLF = true
-	row := []string{"1", "2", "3", "4", "5,6"}
-	err = w.Write(row)
+	err = w.Write(content)
 	if err != nil {
 		return err
 	}
 	//这里必须刷新，才能将数据写入文件。
 	w.Flush()
 
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From f466127f82abf8e0ceb393aab9b3c39ffa260d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 04/34] fix: FormatByte formats the given size in the unit it
 reached

---
 help/utils/files.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9c0d393..c7f7ffa 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -157,10 +157,10 @@ func GetSuffixName(str, seg string) string {
 
 //FormatByte 转换字节大小
 func FormatByte(size int) string {
-	fSize := float64(32)
+	fSize := float64(size)
 	units := [6]string{"B", "KB", "MB", "GB", "TB", "PB"}
 	var i int
-	for i := 0; fSize > 1024 && i < 5; i++ {
+	for ; fSize > 1024 && i < 5; i++ {
 		fSize /= 1024
 	}
 	num := fmt.Sprintf("%.2f", fSize)
-- 
2.43.0


From 01e123b52d17406d22091bc3e8244235b88e6219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 05/34] fix: UpperFirst returns the capitalised text

---
 help/utils/strings.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 811ef33..30fc6ea 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -4,6 +4,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // StringToInt
@@ -48,11 +50,12 @@ func StringToInt64(s string) int64 {
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:32:18
 func UpperFirst(s string) string {
-	if len(s) > 0 {
-		strings.Replace(s, s[0:1], strings.ToUpper(s[0:1]), 1)
+	r, size := utf8.DecodeRuneInString(s)
+	if r == utf8.RuneError {
+		return s
 	}
 
-	return s
+	return string(unicode.ToUpper(r)) + s[size:]
 }
 
 // HideStar
-- 
2.43.0


From cc9a736d1d1b57eee67bdb487190d8389e86fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 06/34] fix: CopyFile truncates an existing destination

---
 help/utils/files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index c7f7ffa..bdc8046 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -202,7 +202,7 @@ func CopyFile(dstName, srcName string) (written int64, err error) {
 		return
 	}
 	defer src.Close()
-	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)
+	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 5cc906c4f77b1e33031fc619199a93c8dce06fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 07/34] fix: chunk file is closed when writing it fails

---
 help/utils/breakpoint_continue.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 816de58..2c14053 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -48,13 +48,12 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 	f, err := os.Create(path)
 	if err != nil {
 		return path, err
-	} else {
-		_, err = f.Write(content)
-		if err != nil {
-			return path, err
-		}
 	}
 	defer f.Close()
+	_, err = f.Write(content)
+	if err != nil {
+		return path, err
+	}
 	return path, nil
 }
 
-- 
2.43.0


From 060472842380168f0d7819bc04c89d084a203947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 08/34] fix: MakeFile starts from an empty file and reports
 missing chunks

---
 help/utils/breakpoint_continue.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 2c14053..05db5e0 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -62,15 +62,20 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 	if err != nil {
 		return finishDir + fileName, err
 	}
-	_ = os.MkdirAll(finishDir, os.ModePerm)
-	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
+	if err = os.MkdirAll(finishDir, os.ModePerm); err != nil {
+		return finishDir + fileName, err
+	}
+	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
 	if err != nil {
 		return finishDir + fileName, err
 	}
 	defer fd.Close()
 	for k := range rd {
-		content, _ := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
-		_, err = fd.Write(content)
+		var content []byte
+		content, err = ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
+		if err == nil {
+			_, err = fd.Write(content)
+		}
 		if err != nil {
 			_ = os.Remove(finishDir + fileName)
 			return finishDir + fileName, err
-- 
2.43.0


From ce811722685a1a94f82212e788445f5f0be335f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 09/34] fix: chunk helpers refuse names that leave their
 directory

---
 help/utils/breakpoint_continue.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 05db5e0..0610c22 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -3,9 +3,11 @@ package utils
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"errors"
 	"io/ioutil"
 	"os"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -25,6 +27,9 @@ const (
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:50:35
 func BreakPointContinue(content []byte, fileName string, contentNumber int, contentTotal int, fileMd5 string) (string, error) {
+	if !isSafeName(fileName) || !isSafeName(fileMd5) {
+		return "", errUnsafeName
+	}
 	path := breakpointDir + fileMd5 + "/"
 	err := os.MkdirAll(path, os.ModePerm)
 	if err != nil {
@@ -34,6 +39,13 @@ func BreakPointContinue(content []byte, fileName string, contentNumber int, cont
 	return pathC, err
 }
 
+var errUnsafeName = errors.New("unsafe file name")
+
+// isSafeName 只允许单个路径元素，避免访问切片目录以外的文件
+func isSafeName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\\")
+}
+
 func CheckMd5(content []byte, chunkMd5 string) (CanUpload bool) {
 	fileMd5 := MD5V(content)
 	if fileMd5 == chunkMd5 {
@@ -58,6 +70,9 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 }
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
+	if !isSafeName(fileName) || !isSafeName(FileMd5) {
+		return "", errUnsafeName
+	}
 	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)
 	if err != nil {
 		return finishDir + fileName, err
@@ -85,6 +100,9 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 }
 
 func RemoveChunk(FileMd5 string) error {
+	if !isSafeName(FileMd5) {
+		return errUnsafeName
+	}
 	err := os.RemoveAll(breakpointDir + FileMd5)
 	return err
 }
-- 
2.43.0


From da5726846f2535b9be19aca54b6b4c726025ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 10/34] fix: Unzip reports a failure to create a directory

---
 help/utils/zip.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 6ca6f48..69ede40 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -28,7 +28,9 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 		fpath := filepath.Join(destDir, f.Name)
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
-			os.MkdirAll(fpath, os.ModePerm)
+			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {
+				return []string{}, err
+			}
 		} else {
 			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
 				return []string{}, err
-- 
2.43.0


From 6386d8fc50e20cdc755a0684e813e5979d7f2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 11/34] fix: ZipFiles reports a failure to finalise the archive

---
 help/utils/zip.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 69ede40..2ee8194 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -66,7 +66,7 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 //  @return error
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:46:02
-func ZipFiles(filename string, files []string, oldForm, newForm string) error {
+func ZipFiles(filename string, files []string, oldForm, newForm string) (err error) {
 	newZipFile, err := os.Create(filename)
 	if err != nil {
 		return err
@@ -77,7 +77,9 @@ func ZipFiles(filename string, files []string, oldForm, newForm string) error {
 
 	zipWriter := zip.NewWriter(newZipFile)
 	defer func() {
-		_ = zipWriter.Close()
+		if closeErr := zipWriter.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	// 把files添加到zip中
-- 
2.43.0


From 68de3b1951eff114493d56a0426bc634cff91390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 12/34] fix: Unzip refuses entries outside the destination
 directory

---
 help/utils/zip.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 2ee8194..dcb0caa 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"archive/zip"
+	"errors"
 	"io"
 	"os"
 	"path/filepath"
@@ -26,6 +27,14 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 
 	for _, f := range zipReader.File {
 		fpath := filepath.Join(destDir, f.Name)
+		// 不允许解压到目标目录以外
+		rel, err := filepath.Rel(destDir, fpath)
+		if err != nil {
+			return []string{}, err
+		}
+		if rel == ".." || strings.HasPrefix(rel, ".."+string(os.PathSeparator)) {
+			return []string{}, errors.New("illegal file path: " + f.Name)
+		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
 			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {
-- 
2.43.0


From dee1b0b84e7223b6e7fa87be1f940290539ce5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 13/34] fix: ComputeFileMD5 returns no checksum when reading
 fails

---
 help/utils/md5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index dad633a..9c0e539 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -28,7 +28,9 @@ func Md5Crypt(str string) string {
 // @Date 2022-12-01 11:50:26
 func ComputeFileMD5(file io.Reader) string {
 	md5h := md5.New()
-	io.Copy(md5h, file)
+	if _, err := io.Copy(md5h, file); err != nil {
+		return ""
+	}
 	return fmt.Sprintf("%x", md5h.Sum(nil))
 }
 
-- 
2.43.0


From 0bc35adf6d00ede96e05c897f75e6419894cd612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 14/34] fix: AesDecrypt returns an error for malformed input
 instead of panicking

---
 help/utils/md5.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 9c0e539..287e0d4 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -64,10 +64,13 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	if len(data) == 0 || len(data)%blockSize != 0 {
+		return nil, errors.New("encrypt error")
+	}
 	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
 	crypted := make([]byte, len(data))
 	blockMode.CryptBlocks(crypted, data)
-	crypted, err = pkcs7UnPadding(crypted)
+	crypted, err = pkcs7UnPadding(crypted, blockSize)
 	if err != nil {
 		return nil, err
 	}
@@ -80,11 +83,14 @@ func pkcs7Padding(data []byte, blockSize int) []byte {
 	return append(data, padText...)
 }
 
-func pkcs7UnPadding(data []byte) ([]byte, error) {
+func pkcs7UnPadding(data []byte, blockSize int) ([]byte, error) {
 	length := len(data)
 	if length == 0 {
 		return nil, errors.New("encrypt error")
 	}
 	unPadding := int(data[length-1])
+	if unPadding == 0 || unPadding > blockSize || unPadding > length {
+		return nil, errors.New("encrypt error")
+	}
 	return data[:(length - unPadding)], nil
 }
-- 
2.43.0


From 899e53bfef7f40fbfc28a9cac45f773cd288dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 15/34] fix: AesEncrypt does not write into the spare capacity
 of its input

---
 help/utils/md5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 287e0d4..44ba069 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -80,7 +80,9 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 func pkcs7Padding(data []byte, blockSize int) []byte {
 	padding := blockSize - len(data)%blockSize
 	padText := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(data, padText...)
+	padded := make([]byte, 0, len(data)+padding)
+	padded = append(padded, data...)
+	return append(padded, padText...)
 }
 
 func pkcs7UnPadding(data []byte, blockSize int) ([]byte, error) {
-- 
2.43.0


From 5d48a21a99491cbff74af8667974c29d164c8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 16/34] fix: number masks count characters instead of bytes

---
 help/utils/strings.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 30fc6ea..8f96a57 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -109,16 +109,17 @@ func HideStar(str string) (result string) {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:40:59
 func MaskMobile(mobile string, maskNumber int) string {
+	runes := []rune(mobile)
 	offset := 3
-	if len(mobile) > 11 {
+	if len(runes) > 11 {
 		offset += 2
 	}
 	maskNumber += offset
 
 	ret := mobile
-	if len(mobile) > maskNumber {
-		_cardNo := make([]rune, len(mobile))
-		for index, _c := range mobile {
+	if len(runes) > maskNumber {
+		_cardNo := make([]rune, len(runes))
+		for index, _c := range runes {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -155,13 +156,14 @@ func MaskCustomerName(name string) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:18
 func MaskIDCard(idcard string, maskNumber int) string {
+	runes := []rune(idcard)
 	offset := 4
 	maskNumber += offset
 
 	ret := idcard
-	if len(idcard) > maskNumber {
-		_cardNo := make([]rune, len(idcard))
-		for index, _c := range idcard {
+	if len(runes) > maskNumber {
+		_cardNo := make([]rune, len(runes))
+		for index, _c := range runes {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -180,16 +182,17 @@ func MaskIDCard(idcard string, maskNumber int) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:25
 func MaskBackCard(bankcard string, maskNumber int) string {
+	runes := []rune(bankcard)
 	offset := 4
 	maskNumber += offset
-	if len(bankcard) > 16 {
-		maskNumber += len(bankcard) - 16
+	if len(runes) > 16 {
+		maskNumber += len(runes) - 16
 	}
 
 	ret := bankcard
-	if len(bankcard) > maskNumber {
-		_cardNo := make([]rune, len(bankcard))
-		for index, _c := range bankcard {
+	if len(runes) > maskNumber {
+		_cardNo := make([]rune, len(runes))
+		for index, _c := range runes {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
-- 
2.43.0


From 773d50d9bdd5957c63fc7cc2e406e583e837c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 17/34] fix: MaskCustomerName counts characters instead of
 bytes

---
 help/utils/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 8f96a57..d5b07d0 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -140,11 +140,11 @@ func MaskMobile(mobile string, maskNumber int) string {
 func MaskCustomerName(name string) string {
 
 	_name := []rune(name)
-	if len(name) > 4 {
+	if len(_name) > 4 {
 		name = string(_name[:2]) + "***" + string(_name[len(_name)-2:])
-	} else if len(name) < 1 {
+	} else if len(_name) < 1 {
 		name = ""
-	} else if len(name) <= 4 {
+	} else if len(_name) <= 4 {
 		name = string(_name[:1]) + "***"
 	}
 
-- 
2.43.0


From 3921908f38552a3174aa2610da15e907902de470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 18/34] fix: HideStar counts the characters of a mail account
 instead of its bytes

---
 help/utils/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index d5b07d0..5ceb755 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -69,7 +69,7 @@ func HideStar(str string) (result string) {
 	if strings.Contains(str, "@") {
 		// 邮箱
 		res := strings.Split(str, "@")
-		if len(res[0]) < 3 {
+		if len([]rune(res[0])) < 3 {
 			resString := "***"
 			result = resString + "@" + res[1]
 		} else {
-- 
2.43.0


From 7a84dd62d3fbaa55bca33155509126049099f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 19/34] fix: Split handles zero and sums that would wrap around

---
 common/math/math.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/math/math.go b/common/math/math.go
index c7096b8..0880b1f 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -10,7 +10,13 @@ import (
 // Split 把数n分成m份
 // 返回每一份大小和最后一份的大小
 func Split(n, m uint) (uint, uint) {
-	per := (n + m - 1) / m
+	if n == 0 {
+		return 0, 0
+	}
+	per := n / m
+	if n%m != 0 {
+		per++
+	}
 	last := n % per
 	if last == 0 {
 		last = per
-- 
2.43.0


From c14c439b2c701ec2e8c32d86819064ac84100962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 20/34] fix: HeapN sifts down over all n children

---
 common/container/heap/heapn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index 33c7c6b..dd93c44 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -88,7 +88,7 @@ func (h *HeapN[T]) down(i0, n int) bool {
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+4 && j1 < n; j1++ {
+		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From fc9a5a91473767d2643b74bb1620685bf4523d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 21/34] fix: the zero value of List is ready to use

---
 common/container/list/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index ca335fe..8d189bd 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -81,6 +81,13 @@ func (l *List[T]) Back() *Element[T] {
 	return l.root.prev
 }
 
+// lazyInit lazily initializes a zero List value.
+func (l *List[T]) lazyInit() {
+	if l.root.next == nil {
+		l.Clear()
+	}
+}
+
 // insert inserts e after at, increments l.len, and returns e.
 func (l *List[T]) insert(e, at *Element[T]) *Element[T] {
 	e.prev = at
@@ -145,11 +152,13 @@ func (l *List[T]) RemoveBack() T {
 
 // PushFront inserts a new element e with value v at the front of list l and returns e.
 func (l *List[T]) PushFront(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, &l.root)
 }
 
 // PushBack inserts a new element e with value v at the back of list l and returns e.
 func (l *List[T]) PushBack(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, l.root.prev)
 }
 
@@ -220,6 +229,7 @@ func (l *List[T]) MoveAfter(e, mark *Element[T]) {
 // PushBackList inserts a copy of another list at the back of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
 		l.insertValue(e.Value, l.root.prev)
 	}
@@ -228,6 +238,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // PushFrontList inserts a copy of another list at the front of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
 		l.insertValue(e.Value, &l.root)
 	}
-- 
2.43.0


From 68a9bd728dff84a454fe666c5ea0777ef2c721d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 22/34] fix: Clear releases the elements of the list

---
 common/container/list/list.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index 8d189bd..a31aaa6 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -52,6 +52,14 @@ type List[T any] struct {
 
 // Clear clears list l.
 func (l *List[T]) Clear() *List[T] {
+	// the elements no longer belong to l
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next = nil // avoid memory leaks
+		e.prev = nil // avoid memory leaks
+		e.list = nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From af9624815157bb16b9c30a98133e28e5aaf53e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 23/34] fix: fixed-size rings publish progress atomically after
 accessing the slots

---
 common/container/ringbuffer/fix/fix.go    | 30 +++++++++----------
 common/container/ringbuffer/round/roud.go | 35 ++++++++++++-----------
 2 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/common/container/ringbuffer/fix/fix.go b/common/container/ringbuffer/fix/fix.go
index 16cd812..30726d6 100644
--- a/common/container/ringbuffer/fix/fix.go
+++ b/common/container/ringbuffer/fix/fix.go
@@ -2,6 +2,7 @@ package fix
 
 import (
 	"math"
+	"sync/atomic"
 
 	mmath "github.com/ahKevinXy/go-web-tools/common/math"
 )
@@ -42,9 +43,9 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out % r.size
-	r.out++
-	return r.data[out]
+	e := r.data[r.out%r.size]
+	atomic.AddUint64(&r.out, 1) // 读取之后再释放
+	return e
 }
 
 // 队头元素
@@ -60,17 +61,16 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in % r.size
-	r.in++
-	r.data[in] = e
+	r.data[r.in%r.size] = e
+	atomic.AddUint64(&r.in, 1) // 写入之后再发布
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -79,13 +79,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in % r.size
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.AddUint64(&r.in, size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if n := r.Len(); size > n {
+		size = n
 	}
 	if size == 0 {
 		return nil
@@ -94,7 +94,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.AddUint64(&r.out, size)
 	return elems
 }
 
@@ -104,7 +104,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.AddUint64(&r.out, uint64(copied))
 }
 
 // 重置读写指针
@@ -121,7 +121,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -131,7 +131,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index 9512d70..b256562 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -1,6 +1,10 @@
 package round
 
-import "github.com/ahKevinXy/go-web-tools/common/math"
+import (
+	"sync/atomic"
+
+	"github.com/ahKevinXy/go-web-tools/common/math"
+)
 
 // 最大长度
 const MaxSize = 1 << 62
@@ -36,9 +40,9 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out & r.mask
-	r.out++
-	return r.data[out]
+	e := r.data[r.out&r.mask]
+	atomic.AddUint64(&r.out, 1) // 读取之后再释放
+	return e
 }
 
 // 队头元素
@@ -54,17 +58,16 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in & r.mask
-	r.in++
-	r.data[in] = e
+	r.data[r.in&r.mask] = e
+	atomic.AddUint64(&r.in, 1) // 写入之后再发布
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -73,13 +76,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in & r.mask
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.AddUint64(&r.in, size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if n := r.Len(); size > n {
+		size = n
 	}
 	if size == 0 {
 		return nil
@@ -88,7 +91,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.AddUint64(&r.out, size)
 	return elems
 }
 
@@ -98,7 +101,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:math.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.AddUint64(&r.out, uint64(copied))
 }
 
 // 重置读写指针
@@ -115,7 +118,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -125,7 +128,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
-- 
2.43.0


From ca7857d0957b7b2e01640f7bafe23386bd4d65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 24/34] fix: round ring refuses oversized sizes before rounding
 them

---
 common/container/ringbuffer/round/roud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index b256562..cdce96e 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -23,10 +23,10 @@ func New[T any](size uint64) *Ring[T] {
 	if size == 0 {
 		panic("size must be greater than 0")
 	}
-	size = math.RoundUpPowOf2(size)
 	if size > MaxSize {
 		panic("size is too large")
 	}
+	size = math.RoundUpPowOf2(size)
 
 	return &Ring[T]{
 		size: size,
-- 
2.43.0


From 8a9e9fc11364759dae3a874ea1d73737b62c1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 25/34] fix: MPopCopy on an unbounded ring without capacity
 copies nothing

---
 common/container/ringbuffer/unbounded/unbounded.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/container/ringbuffer/unbounded/unbounded.go b/common/container/ringbuffer/unbounded/unbounded.go
index 1a892c0..06f8592 100644
--- a/common/container/ringbuffer/unbounded/unbounded.go
+++ b/common/container/ringbuffer/unbounded/unbounded.go
@@ -90,6 +90,9 @@ func (r *Ring[T]) MPop(size uint64) []T {
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
+	if r.Empty() {
+		return
+	}
 	out := r.out % r.size
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
-- 
2.43.0


From 6f97890922a5aca0c94a66589e1617ffb00db34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 26/34] fix: AfterFunc runs a task that is already due instead
 of dropping it

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 59ca0ca..73507a5 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -78,7 +78,7 @@ func (tw *TimingWheel) AfterFunc(delay time.Duration, f func()) *Timer {
 		expiration: time.Now().Add(delay).UnixMilli(),
 		task:       f,
 	}
-	tw.add(t)
+	tw.addOrRun(t)
 	return t
 }
 
-- 
2.43.0


From f3b79b4aa5bb74bdea3b79c50dea4a69808888b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 27/34] fix: timing wheel queue waits until the head expires
 instead of spinning

---
 common/timer/timingwheel/delayqueue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 7f72023..94876b0 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -73,7 +73,7 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(now-expiration) * time.Millisecond)
+			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
 		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
 		atomic.StoreInt32(&q.sleeping, 1)
-- 
2.43.0


From 681eb7cea4fe4999656bf972983aa6e8d7114aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 28/34] fix: the timing wheel reads a slot's expiration
 atomically

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 73507a5..9c4fbb8 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -56,7 +56,7 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 		select {
 		case b := <-bucketChan: // 桶到期
 			// 前进当前时间
-			tw.advance(b.expiration)
+			tw.advance(b.getExpiration())
 			// 处理桶
 			b.flush(tw.addOrRun)
 		case <-ctx.Done(): // 被关闭
-- 
2.43.0


From 64e6128781f3ad1f15fa44d514f94aba53f9bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 29/34] fix: Run returns when the slot channel was closed by
 cancellation

---
 common/timer/timingwheel/timing_wheel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 9c4fbb8..cca4daa 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -54,7 +54,10 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 	})
 	for {
 		select {
-		case b := <-bucketChan: // 桶到期
+		case b, ok := <-bucketChan: // 桶到期
+			if !ok { // 队列已关闭
+				return
+			}
 			// 前进当前时间
 			tw.advance(b.getExpiration())
 			// 处理桶
-- 
2.43.0


From 46b4d963634c7aa3b43916d2aa7198fcf5117d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 30/34] fix: the channel goroutines of the delay queues end
 when cancelled while nobody reads

---
 common/timer/delayqueue/delayqueue.go  | 7 ++++++-
 common/timer/timingwheel/delayqueue.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5eae6c4..b47b278 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -137,7 +137,12 @@ func (q *DelayQueue[T]) Channel(ctx context.Context, size int) <-chan T {
 				close(out)
 				return
 			}
-			out <- entry
+			select {
+			case out <- entry:
+			case <-ctx.Done(): // 被关闭，不再有人读取
+				close(out)
+				return
+			}
 		}
 	}()
 
diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 94876b0..d903559 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -121,7 +121,12 @@ func (q *delayQueue) channel(ctx context.Context, size int, nowF func() int64) <
 				close(out)
 				return
 			}
-			out <- entry
+			select {
+			case out <- entry:
+			case <-ctx.Done(): // 被关闭，不再有人读取
+				close(out)
+				return
+			}
 		}
 	}()
 	return out
-- 
2.43.0


From 27c219112f34f6a7a86e86eaeea4028690d38a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 31/34] fix: delay queues wake every waiting consumer and Push
 never blocks on a cancelled one

---
 common/timer/delayqueue/delayqueue.go  | 20 ++++++--------------
 common/timer/timingwheel/delayqueue.go | 25 +++++++++----------------
 2 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index b47b278..ffd7455 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
@@ -18,9 +17,7 @@ type entry[T any] struct {
 type DelayQueue[T any] struct {
 	h     *heap.Heap[*entry[T]]
 	mutex sync.Mutex //保证并发安全
-	// 0 表示take 没在等待 1 表示在等待
-	sleeping int32
-	// 唤醒通道
+	// 唤醒通道，队头变化时关闭并替换，唤醒所有等待的take
 	wakeup chan struct{}
 }
 
@@ -58,10 +55,8 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 	// 唤醒等待的take
 
 	if q.h.Peek() == entry {
-		// 把sleep 从1修改成0
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		close(q.wakeup)
+		q.wakeup = make(chan struct{})
 	}
 
 }
@@ -92,17 +87,14 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			timer = time.NewTimer(entry.expiration.Sub(now))
 		}
 
-		atomic.StoreInt32(&q.sleeping, 1)
+		wakeup := q.wakeup
 		q.mutex.Unlock()
 
 		if timer != nil {
 			select {
-			case <-q.wakeup:
+			case <-wakeup:
 				timer.Stop()
 			case <-timer.C:
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					<-q.wakeup
-				}
 			case <-ctx.Done():
 				timer.Stop()
 				var t T
@@ -111,7 +103,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			}
 		} else {
 			select {
-			case <-q.wakeup: //
+			case <-wakeup: //
 			case <-ctx.Done(): // 被关闭
 				var t T
 				return t, false
diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index d903559..a6fc050 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -4,15 +4,13 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
 type delayQueue struct {
-	h        *heap.Heap[*bucket]
-	mutex    sync.Mutex
-	sleeping int32         //
-	wakeup   chan struct{} //唤醒通道
+	h      *heap.Heap[*bucket]
+	mutex  sync.Mutex
+	wakeup chan struct{} //唤醒通道，队头变化时关闭并替换，唤醒所有等待的take
 }
 
 // newDelayQueue
@@ -43,9 +41,8 @@ func (q *delayQueue) push(b *bucket) {
 	q.h.Push(b)
 
 	if q.h.Peek() == b {
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		close(q.wakeup)
+		q.wakeup = make(chan struct{})
 	}
 }
 
@@ -75,27 +72,23 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
 			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
-		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
-		atomic.StoreInt32(&q.sleeping, 1)
+		// 走到这里表示需要等待了，Push()在有更早到期的新元素时会关闭该通道
+		wakeup := q.wakeup
 		q.mutex.Unlock()
 
 		// 不为空，需要同时等待元素到期，并且除非t到期，否则都需要关闭t避免泄露
 		if t != nil {
 			select {
-			case <-q.wakeup: // 新的更快到期元素
+			case <-wakeup: // 新的更快到期元素
 				t.Stop()
 			case <-t.C: // 首元素到期
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					// 避免Push()的协程被阻塞
-					<-q.wakeup
-				}
 			case <-ctx.Done(): // 被关闭
 				t.Stop()
 				return nil
 			}
 		} else {
 			select {
-			case <-q.wakeup: // 新的更快到期元素
+			case <-wakeup: // 新的更快到期元素
 			case <-ctx.Done(): // 被关闭
 				return nil
 			}
-- 
2.43.0


From ef073edc69b04704c88996b30c265af88fcfc1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 32/34] fix: BatchInsertTableRecords inserts the fields of
 every record, not only those of the first

---
 gorm_tools/gorm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 7e13ea2..ceef228 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -146,10 +146,16 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		recordMap[index] = recordMapItem
 	}
 
-	//以一定的顺序收集字段名字
+	//以一定的顺序收集所有记录的字段名字
 	fieldName := make([]string, 0, len(recordMap[0]))
-	for key := range recordMap[0] {
-		fieldName = append(fieldName, key)
+	collected := make(map[string]bool, len(recordMap[0]))
+	for _, item := range recordMap {
+		for key := range item {
+			if !collected[key] {
+				collected[key] = true
+				fieldName = append(fieldName, key)
+			}
+		}
 	}
 
 	//按上面收集到的字段名字顺序，查找对应的value
-- 
2.43.0


From 39a2dd49fc76aa1fc90ad9df2cc0c4bc75125689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 33/34] fix: SplitInsertTableRecords always makes progress and
 drops no record when the first has no field

---
 gorm_tools/gorm.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index ceef228..2ae3ced 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -108,11 +108,14 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 	if err != nil {
 		return err
 	}
-	if len(recordMap) == 0 {
-		return nil
-	}
 	// 由于数据库占位符长度限制,需要动态限制
-	maxInsertLen := 65000 / len(recordMap)
+	maxInsertLen := 65000
+	if len(recordMap) > 0 {
+		maxInsertLen = 65000 / len(recordMap)
+	}
+	if maxInsertLen == 0 {
+		maxInsertLen = 1
+	}
 
 	for len(records) != 0 {
 		insertLen := len(records)
-- 
2.43.0


From fdc5fa197f937d7e312b2856878738d1af5936f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 34/34] fix: batch update rejects field sets that differ
 instead of dropping fields

---
 gorm_tools/update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 2a9b664..01ddce1 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -53,6 +53,12 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		break
 	}
 
+	for _, updateMap := range idUpdateMap {
+		if len(updateMap) != len(updateField) {
+			return fmt.Errorf("update field must equal")
+		}
+	}
+
 	caseSQL, beginSQL := "", "update "+tableName+" set "
 
 	args, allID := make([]interface{}, 0, len(idUpdateMap)*2), make([]int64, 0, len(idUpdateMap))
-- 
2.43.0

