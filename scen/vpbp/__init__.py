import vpbp.sub
