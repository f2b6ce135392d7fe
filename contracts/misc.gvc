// ---- grammeme errors (internal/grammemes) ----
def errmsg(e) = ite(e.wrapped != nil, cat(e.formattedString, cat(": ", errtext(e.wrapped))), e.formattedString)

func (internal/grammemes.Error).Error(e) (s)
  props G01
  ensures [text] s == errmsg(e)

func (internal/grammemes.Error).GoString(e) (s)
  props G01
  ensures [text] s == cat("grammemes.Error:", errmsg(e))

func internal/grammemes.NewErrorf(format, args) (err)
  props G01
  ensures [kind] err != nil && dyn(err, "*internal/grammemes.Error") && fresh(err)
  ensures [text] unbox(err, "*internal/grammemes.Error").formattedString == sprintf(format, args)
  ensures [plain] unbox(err, "*internal/grammemes.Error").wrapped == nil

func internal/grammemes.WrapErrorf(wrap, format, args) (err)
  props G01
  ensures [kind] err != nil && fresh(err)
  ensures [text] err.formattedString == sprintf(format, args)
  ensures [cause] err.wrapped == wrap

// ---- data paths (pkg/common) ----
func pkg/common.GetDataPath() (p)
  props G02
  ensures [path] p == ".data"

func pkg/common.DomainDataPath(domain) (p)
  props G02
  ensures [path] p == joinpath(".data", domain)

func pkg/common.DomainFilePath(domain, fileName) (p)
  props G02
  ensures [path] p == joinpath(joinpath(".data", domain), fileName)

func pkg/common.MakeDomainDataPath(domain) (err)
  props G02
  ensures [made] err == nil ==> isdir(abspath(joinpath(".data", domain)))
