# writing through a temporary file
KEY="file"
F="library/cachex/file.go"
EDITS=[
(F,'''	return os.WriteFile(fp, content, 0666)
''','''	tmp := fp + ".tmp"
	if err := os.WriteFile(tmp, content, 0666); err != nil {
		return err
	}
	return os.Rename(tmp, fp)
'''),
]
