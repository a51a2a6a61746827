@c ------------------------------------------------ round trip (C18): lemmas only
