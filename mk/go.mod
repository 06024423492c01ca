module verifmk

go 1.27
