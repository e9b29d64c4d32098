B='encoding/thriftbinary/thriftbinary.go'; C='encoding/thriftcompact/thriftcompact.go'; T='encoding/thriftcompact/types.go'
W='encoding/thriftwire/bufio.go'; V='encoding/thriftwire/varint.go'; K='encoding/thriftwire/skip.go'
import os, importlib.util
_s = importlib.util.spec_from_file_location('w3', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wire3.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
READSTR, READBYTES = _m.READSTR, _m.READBYTES
NEXT='''	buf, err := b.Peek(n)
	_, _ = b.Discard(len(buf))
	if len(buf) == n {
		err = nil
	} else if len(buf) > 0 && err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return buf, err'''
FAST='''	if b.Size() >= n {
		c, err := Next(b, n)
		return append(buf, c...), err
	}
'''
MUTANTS=[
('ok5-make-full','ok','',[(W,READBYTES,'''	left := n
	for left > 0 {
		k := min(left, b.Size())
		start := len(buf)
		buf = append(buf, make([]byte, k)...)
		m, err := io.ReadFull(b, buf[start:])
		left -= m
		if err != nil {
			if left != n && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return buf[:start+m], err
		}
	}
	return buf, nil''')]),
('ok5-str-len','ok','',[(W,READSTR,'''	var sb strings.Builder
	for sb.Len() < n {
		c, err := Next(b, min(n-sb.Len(), b.Size()))
		sb.Write(c)
		if err != nil {
			if sb.Len() > 0 && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return sb.String(), err
		}
	}
	return sb.String(), nil''')]),
('ok5-bytes-base','ok','',[(W,READBYTES,'''	base := len(buf)
	for len(buf)-base < n {
		c, err := Next(b, min(n-(len(buf)-base), b.Size()))
		buf = append(buf, c...)
		if err != nil {
			if len(buf) > base && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return buf, err
		}
	}
	return buf, nil''')]),
('ok5-str-viabytes','ok','',[(W,READSTR,'''	c, err := ReadBytes(b, n, nil)
	return string(c), err'''),(W,'	"strings"\n','')]),
('ok5-next-early','ok','',[(W,NEXT,'''	buf, err := b.Peek(n)
	if _, e := b.Discard(len(buf)); e != nil {
		return buf, e
	}
	if len(buf) >= n {
		return buf, nil
	}
	if err == io.EOF && len(buf) != 0 {
		return buf, io.ErrUnexpectedEOF
	}
	return buf, err''')]),
('ok5-next-switch','ok','',[(W,NEXT,'''	buf, err := b.Peek(n)
	got := len(buf)
	b.Discard(got)
	switch {
	case got == n:
		return buf, nil
	case got > 0 && errors.Is(err, io.EOF):
		return buf, io.ErrUnexpectedEOF
	default:
		return buf, err
	}'''),(W,'	"bufio"\n','	"bufio"\n	"errors"\n')]),
('ok5-eof-helper','ok','',[(W,READBYTES,'''	left := n
	for left > 0 {
		c, err := Next(b, min(left, b.Size()))
		buf = append(buf, c...)
		left -= len(c)
		if err != nil {
			return buf, truncated(err, left != n)
		}
	}
	return buf, nil'''),(W,'// ReadString reads','''// truncated turns io.EOF into io.ErrUnexpectedEOF if something was read.
func truncated(err error, some bool) error {
	if some && err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

// ReadString reads''')]),
('ok5-nofast','ok','',[(W,FAST,'')]),
('ok5-chunk-const','ok','',[(W,READBYTES,'''	const chunk = 4096
	left := n
	for left > 0 {
		want := left
		if want > chunk {
			want = chunk
		}
		if size := b.Size(); want > size {
			want = size
		}
		c, err := Next(b, want)
		buf = append(buf, c...)
		left -= len(c)
		if err != nil {
			if left != n && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return buf, err
		}
	}
	return buf, nil''')]),
('ok5-grow-once','ok','',[(W,READBYTES,'''	buf = slices.Grow(buf, b.Size())
'''+READBYTES),(W,'	"io"\n','	"io"\n	"slices"\n')]),
('ok5-sb-grow','ok','',[(W,READSTR,READSTR.replace('	left := n\n','	sb.Grow(b.Size())\n	left := n\n'))]),
('ok5-buffer','ok','',[(W,READSTR,READSTR.replace('var sb strings.Builder','var sb bytes.Buffer')),(W,'	"strings"\n',''),(W,'	"bufio"\n','	"bufio"\n	"bytes"\n')]),
('ok5-copyn','ok','',[(W,READSTR,'''	var sb strings.Builder
	m, err := io.CopyN(&sb, b, int64(n))
	if err == io.EOF && m > 0 {
		err = io.ErrUnexpectedEOF
	}
	return sb.String(), err''')]),
('ok5-bytes-slice','ok','',[(W,READSTR,'''	var sb []byte
	left := n
	for left > 0 {
		c, err := Next(b, min(left, b.Size()))
		sb = append(sb, c...)
		left -= len(c)
		if err != nil {
			if left != n && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return string(sb), err
		}
	}
	return string(sb), nil'''),(W,'	"strings"\n','')]),
('ok5-while','ok','',[(W,READBYTES,'''	read := 0
	for {
		if read == n {
			return buf, nil
		}
		c, err := Next(b, min(n-read, b.Size()))
		read += len(c)
		buf = append(buf, c...)
		if err != nil {
			if read > 0 && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return buf, err
		}
	}''')]),
]
