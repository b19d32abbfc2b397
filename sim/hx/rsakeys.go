//go:build go1.22

package main

// Fixed 1024-bit RSA test keys (key generation is not under test).
var rsaPEM = []string{
	"MIICWwIBAAKBgQC1ksn+Adu/Ws+N6aEDLpX6LQWGcOw2r18gHM7v3zw+t6q1JUhSmFZCpt7z4MLps0ABTTqf03oEst0G/1FlU9ytUNQcv6DyxDmbq+UmZNIoYTTDGFHKPXgy1bbRAsFqRAPMqlD35MpT2dGDD/d831/LnaC1qJW9x+73Z4uwtwPmCwIDAQABAoGARvIG+LezLA6IgJOjtQGT2j+TJBelRCy7x2laNgGMoZjUG5loq9UYB0z6WmIc5oGCZb/OQzq3N3THxf8mx6e/1lP4/c+YWM01TVeUX7IlesemPp+RhRPZ8w0I7EkmNn0Kgp1eQdXhoz/pZkZVTwgTw28ZpyrQ1TIK4dkq3hq/X/ECQQDURRyw/F+UxAz6IjCZ2WP1fIKjxqDevSVjrHy9Ink5MId/p0BtuLTD7AL60wTMST0f/ODgu4Uumz0nQ06VImbzAkEA2vrF3gO8Jgz9kLQU2WLUOaSnh2gx2BE1vp6iq3fQ3ljyc1MJz6t88HrwBk+Imy7VuQC7rD/+PwLPjgY6jAl6iQJAE6GUprWgbVS4UoXI8uGNAg4S0uyywgbCJ3azTpaamXRog6DHL56OcTQpjmLnpbD8SzIK5h3Rkl7fB/uMj/RPiwJAH2sZlqgch60XeHqN/z6xym94ZfIqLKETf/0Mw+NWAYDrkGZaowQs0eghphYlOHa4zWlwg99OoEXL98mm/s6hWQJAcixoFf8ErmHdNgwMdFFkK3sxmqvjawNowIfN1LhgMerNQ0f27fmYnRCDvGiI+PXa3d+JGQ246leupIdnhm848g==",
	"MIICXQIBAAKBgQDNc1uCgTBG0xzxolw0EEiwFFoeYhPET0TquMMGD49XmtgZmXUML8nZtIX/KlCwB9SYE/v/n7unEdEvyJCNEYLY4RhFICZN0l7Be3qLaMiumKCyM4ygVyLul69hdHqOecBBtSoRPlywpgTJXSqdgaPqJfxbX41OFK7SDbCaw6aIRQIDAQABAoGBALQtXeym5bLHRJP5IsmaGlUplBsfQlygdD0xif+Pt9NJfgl9VnQ4mNovgnBUKO0oAN7ab98vs7+CVaWFTJga6lc8jJ5FeVpeaOZqRlxBVvoCS4EZ5UNDMcqtx7IOlBrqqO0hQ/bMQLv4+kOWdBXFFX2i30YSWv+gQm6IYUcIkZqlAkEA9DH8DdgPEp5NBp5JqOiNiHMLmSu8G7kUlMoUb7rP2xvdgV3dxGQ2zeL7TSJyD7mBrdtA7nnp8Q5oNDloKxhWewJBANdh5GrHgSgLJ9PCulv4AY7dQuDQbRv8K3F56tyyaUetJQmpTqr2pPGKrKh2QapxDXmAZ1f0ScdRwl8N3ExXwD8CQCmZCjLhh0/In55tAGdBljqUPnmNNbITSSo/clPGIvpUONt8vfZii+NusxhkscFz/F89ZkY5hlyF88JRtSkCMFkCQEC1rpTOP+WyBFNBDBCZoI41t+QnesCPsNW1FXUdPThFsv0GGxaOZ9wSF/G9Jdl5gdzhUStBv/DchZNdbLSbIK0CQQCULwjUzxpGt9wOqlRcgb49ZUCmFSkJN7ukGF519ohu4uwMYZJCvjdbzug6jRUzMzZOf0KcZsBeZ5sAyi0Ame4i",
	"MIICXAIBAAKBgQDXq6V3ZBBo+np+oP0eHsHGBTVEZIGlZHsP0t9RY2NutEe/ObRpgPQhDBaeovNkoB7YEP/rugRxXvf/CKzj1pjQibCWVypNPVGojoBoklVQyJgJvv6ylDiiVwemm9rFDflxfS2Sx1J7g6FVy4WnNUG4kp0iA6VN2r8a1JqkzdQ2UQIDAQABAoGBANIwH+gWpoOZMc69mVJEiXcy1jIcfdmx7tmCG1DXuy1GF/J/C5wTKFoYzOa4SttTzhunnbOgK/pNowZz7wNxvqUcJD2P+887Ucvv1UnXtyT+CzxaHXEtvQHa58XXkgChq2vk1/Tm3qxxX6T50sn2YxxvjX4wPhT7d3vbnofR4bPBAkEA9zEkN+NQIuUNeuEZVp2vVv7z9bNJIYoYYy3GOfvPqrK2zaqR0AU8RW0edgTYtcTYUnH/1lwM/T+E6D8Ijg5/aQJBAN9a+C3zCukYwXeu3sM254Mg34sndldbpDOpQ3XsiX/o5+dXQrggy9N/HRx8M8PyC3uvSvz71BNkpWLStWoICqkCQB9naNiI0nd8bhf8XQG6CrqcrVW7r0DJkIuZFyPqr9lZ1wuN7fRlleCkGkiYGQgOuATRYtVS4HuUBEiVKXsSsHECQGNPu5ISwwMp8rwYkQwT2ZTAhSUGguQM51HhLRG9/tVU5ehDMHNWgcqkdnk38Hxrnxd7tcgO4RlOYwsxzWA7+yECQGPAxyeBuZf1r/3VvB3bTCvTeT/PyAZdkw3h/j+g9Lj/Q/bONao8NKZgnb37hFieg9S6fxCPxMPkSj2VJYqjks0=",
	"MIICXAIBAAKBgQDGJ9I6tK3xSopqNRNVig2+ILfYOxFmSmnXIWxooAhcoqeXtLD5s0ryrNxCGjFHcb8pKVqEu5Jr/Rb7YFLl7h8qNIxPfpV/WFdO7PD45m4U8CsqF6GZ3YoGygykzM9JRMWcpslmeFi+hYSISzoE1m3SVs0891VKscG704yIP1si4wIDAQABAoGAEaz/rcjsMzfo/OxbGyhDbZBRlfI+7Rb6Nfx/RR3xYQIJXRj7KGr75oXQ5/yaJLtax/suXeS1fPiIkkfXXTdOhDcTDyCHGsdFWhI7B1ZIxunWiJ2BWVxQ86NSE9+dkyWA9sCmCOWK1en21QXJ4KRXHk7y9qzE3VXd6VOm4N750pECQQDpIAknLG9xYFAqGEr8kZb5TZPNWeXGzvrLgYOK3aOOpsMR24d/qgAXpS9V/Q9MAablrqKEW8ocpB8byx3KKWLlAkEA2Zley3IGmiZ+NcrcRiq8u69TBqs+1Qfx+INIa3tKqtFUTNC58WzRqXuMmo1XAlTuqFPegu9ALaCrRoEFTs2qJwJBAI9z7y3z4f/aTHoayMnyrPxsCG9sykA0TY+8+r0Q9fxqEc+DTzX33maudxpqxmb2/USI2eiosw480AfCTWqBXSECQBV8Pk7qQFqiKF4ZXKyU9bO2eQU0jWytbyfxlon+T34UUzWOen2rF/ybFWQBRrEVP8dhGJxnETgwIBlDDgoc5osCQCYPLa5ja+Mkh3elPu65aFyUYoNuWqCU5rn2NrEvxaj0sFJAwRhFT+/9M9yBzXXTx2FBjhkfU9RovwdhFrjQZNM=",
	"MIICXAIBAAKBgQCluTNwJQvrIkPDpDmytRSk3tix+CMvQ7L7tF4VE0W8XGnoVO44tU54ZKLzBTdQz0t8g9AlCadQOFNxTxvd9QKEqJzShCMVbHrSN2hivj5HPijQr9y4JJzFDTiCpLiMS+k5KlKaOTJRIibHZvXRXixytGE2i1+Pdv9VPoHaHrBzmQIDAQABAoGAWc3ke+73aHHm+suxoI/UIgvIrZhjqKctBI0XNqB897e0hHwRo5VMcp1GWB8JfLb4lv7u+kMi8au0PAC8fyjYNZ/UZgVPMKlpYortihyZ5+TqGccRswZMu2WxWYECw6nK/K8By/ph9VZWV3a+wpZR7RQnzUMYCYh5XRT+5TbYzQECQQDPKll3EarYjA1iYJU1EqyvvRuy522j0wiNRvUooJPB9hv3TX6SUvXsrza5vK2RM+AncGrRcQAKUL3iaR/syRgJAkEAzMn79UkyAHZfxI0qaHy5SYIbFG685poBG0PsA2/k9O6y9im4PxJWFrfdoD8Vm1DO06nPukwe/43tBadAM4/DEQJBAKkdrUMiTRHR4us4ZRWaVRZxjjcR7dMa55RNJL0xuO1R96p+vKC+0LuSnV4qxJYQfyAzCUBIuvuwxhIaN1GZJ+ECQHU2uv8HGRaIqoHuprJNiSQY0vUb+QUoaq+3bbP97JeAtHAPKwT2ss2oCbM5yF0woGEoFdy0yx1Ml7ifpTCd/XECQE5GBQeTgxj/N8OCrSN40XTPIr5sMEqQFM+KyLOk+78gwH/56OAuZchGkOJUK4xecINKDIZqCwwjjt/n2ztsyR4=",
	"MIICXAIBAAKBgQCl3oo+k6W54LYFZFC/gX17RPsTqJ8luVtoBMeLwoFKr1qcx7CIlwvs61luk6A1KW1k6eEYlf9AADdEcJmb3zFSO8NS4IYISLSvWBOFEM5XhqCXN01MlydOkO8kyp7HXaq4chXPcvuPBw3uM9PXXBiTLQATBGV/BoyIIHwh85RiSwIDAQABAoGAIr/msol4NOLw/1wu1pAoW8Tt3QZ8oQieL8Kgk5UiRSVLlID5aQRMCUydJd9jtv+A3Z1p/R6fpSbmbT4x0EgIKt3j0e0RtBvC3QhgkZrASd5zMlgWYtli7xKDBvTa08VHvNVtwkZyo/GWYej3D9dJPpPsjRddrEOVoSGjzFYVAjECQQDKurJlVLPcv57xo1+OBFxZZsL11Qp/GDnLofgLQyhg59obbwsMID/Lr6qLikppKI4BOsZl1IIfEF1sFER8V0Y1AkEA0XRTWQENxBgaOMO3EZ0u/zB93ePmEKRiWHLGDSZu19pI7joIhyId935E3OLf4HVfumLe1mBLFEXlSIG1O0AWfwJBAILYiynhyJDy0KiPVK453E0LiUvXrAWp4iuvJ4RFXTtmiZxpSE0UR3i0sbOMl0hWF4ltoP26ch2Ql2uZjTZfsf0CQEJSo1G7k7BUMXln/8AEFa2YnUJ1t5PteXaoYS4ozVBsPkuw9KJVm0eTJBsNe/aHNBjA1e7r7tosh7291LU+ReECQA6fLFG6sLSZbljqh5AcAghL8Py64feKDgzDP5CfZrxgObmTg/Wiv1L8eJg8nEUE2FvOCRWXwcq8XmXLS+Isox4=",
	"MIICXQIBAAKBgQDBVQ0MQD2/ls2kevvOQ58Mo2/eR9kG/BU25UhqCwIeNeLxSe4LcgMSZcMmMeE3wp65Y/yGZu/53SKM0t2QxyM19gJ4UGe+Sn6AKg1SIeq1ZZhvp1W+1LEwRZe3h232hYG2jF76PWMhX1CKdJ1qQmoDfEqzBatSM0fJtbGIVfuc/QIDAQABAoGBAI/ceQQXvZsWXVm6hit7WBvwdisCbbVr2WFrBhKatG3EjWYdLDxqD20eOjPuw/dZJAEyLNPaP1I/whjmRCcad9DAqW3Jxlt2KY2BeKoUwHZ+JurdR5dSvycPArab1/ziMTTuL3GQiox6RqG1wH0kj1EweIskN0jExEzRt/GYTsSFAkEA7lZ0uWhKSxkQ4fL+5icmeOjLBPJuxircXTug7zGOBtYi4eFcPUcenpLyhBMB1ZepocvHDWtreD6KoP5m0uUDHwJBAM+oydr03R18ayUb7bZN4qO7eav57pwBZETzY9OxgP44jjGpf6ifGD68w6D36tI6aYTbjjydwZ3hW6X1Y0lPmGMCQDuHapYYn13Mf/P/jn0L0Eco1fSBXPuwHuRGjXbQ6Ml6WLIUaMaBaftvdpVYbf/cZqkbzbbjWq9o55U4lZQdUT8CQErQOaD71Om5mHRvIm4qkzt/4G74BWIJElHRCicLbTipsXjs4wQiBT8dDLHif6QrzTZDT3RBNa8msLkStimEVpcCQQDWLQBwJYi8vnlUM5gOmDKJIfHoaaKHuG9iirxUD10IUMXdnjYdbPDFhFLUdh5x09YnqeLZ9efrZPKXLn+vLSAz",
	"MIICXAIBAAKBgQC670xxiCmfkkzNrHEFFAU5M1TTQ2nXay8tC75f/UjSPqWQ1FXCqLoBir42oR9q+d08ojzwq5swTryNq5FeFCkKWAivogBEsVdAlUWgReGUhBnoqCxI8oViM+/0YoR0QE2AJ6mHH7Af7r+as8ycEBRhzUOwvlX7o3DzprUnsA6QYQIDAQABAoGAXUWhYtSJ0DDzWXw9OEdxA8V1AaSVXwMAGv3NE6ARgbX4bndEA0ik5rgPiLqELqBVnzdkKMG3QTdIJXgBpGtyvfg3kUiYIqomhO8Iei2CECmn4WzXeEZHC0m5TvE74u0iZIJF5CP0oVkIISRixOUS+nVCRwwmhHhl1eSQsA8Yr/ECQQDZMAu8de7C8trEpxCJvoQhtoqCJ9ALtmvYhfKTRPuEfsP+S/QNVc2mPuIJgSzqB+mJwtrNUXEjoDSy4ud6yIoPAkEA3Fc8JhnLoFiRXKYhVYQQkw0iLLY9G4xX1anCWHKzoQ3ibFxdmkD6NmQlIuOtd3f6UB4Q23X1gtW9Bf6+mNlujwJACgcv44nGdnXkKARWvSVw0GWvS4cvEftgS2UT6DzdKCb6QbmcESmPD0gEA9BVFJE89UFr/OLvyGdTR5c2fPLZfQJBALbgiIGvAzzQhcV59Uy+0erbCbRGhS1qLDSgMzep68EOfxElEGNI7uNZ9yCgC4eOwujgK2ma2+x9beed6Z9/R60CQENrqayJOBJAkfsIyo5sCkjM1Nt3KTuaWgxaAUgJ6APeHcSvr22GnC0E72kYDRG7MzFndD+6C0gyx8bGGPY33YE=",
	"MIICXAIBAAKBgQDJ7MVOSbURcVfB1Z6OoEVBK+ZldCNj/MQ+dVBpALLEhszZ/XGvdh9GEt4gQOr8llzXRqZO9UF9DzlGVJzTnVCY7zccPMVzj3yzIsuBfMTTQ5j1o0xOq3mS/PZ9xG4Zg/JDquA797wWB0CQn3Oa9dxlV1Ux5cEj5yVgi6fGUx91gQIDAQABAoGANHNn1wunWIYQDR4Ppy2zf5fHK6BM1xqf4Td48SWIyirXyGIgpzqwKfQZtdgXEhB+wj6sUYM8hR8wufedmwxYlEMQgUY/66CegyEUQGaOxiMPZR0YmXHkdB1ZV7WlFy+6cZAM6ttzHg1TpWOenNvMLSplryuiOUQLmAekmFmSl/8CQQDr5QGtEEEc3E9KR723rlpDX9iq004yTSpezkBj9Vwr4ExQJs74s6A5YCDLBsLl7oF8JHbV05TWdx8y16MngxyPAkEA2yKUFmDEkl6lw3xdxvreDxhhWUMDwl9lH9p2T5/g7yufz4Ci0cD/2MD1f7dEfs3d+5WkdnlS6LJYL6bs/kl07wJBAK0VuHgawBwEDu3K3AqllLdw4VLefrbr5dXwclCl3L6Y8oWxJBZZ/ot63DT8Pg9mRH4pZ0SX3dLLTwoILT+1tUMCQDDIy+sHc/uZ8pFImJ/5rYHyzYlPsACPuDWVLw2e7DaSoatSWe0UaGDa5EyggjEwp6CgudJeRCTlv1gsc0pRFCUCQDCjjCqDgEulLKqJOZDH6yK1Tb4qSUZ9Yam1Klv2EncjORDwQkjPwDWrsDFic4re2tRXIw6hZRREqMtsrnrRgAo=",
	"MIICXgIBAAKBgQDH2rUYpejdhMIWJzAEUlp0PZnJDVa1OrgS1ysOtBYJ8ZZnqmhki/rloAj3V9+u6Q3Zk1mmYLugaeqlIaqKYZNR1s0JtiJZRtnIYX5CMr03jCtoysBcTMW7EcG/XMVNo+G18CH71UPKPkzMaIu5oUIdyWcKcXtJSsHPgox0J41+kQIDAQABAoGAWkrUcMtcVuCI84tG5VzzovrFxRDysLRTv6dYu67fGiT8598UhQC9HQtdoaog1BxU9ozc/w9LFaFksrBwJU8KSC3L6EyTqLxScU1BJt/jwDUCuQJYN+SU66MmogZDLWoniu88h4+N36JI2jziZwdEU57JR1+t8HD7MYBF4FkCTIUCQQDnf/EmAccqauUEQ+Y32ZTX6gTqZuhF6ArZ0FzlCb7xFnXs/vFD+qqp/YtA9UlS5y1EDufxI784K1vN1oAQs6A3AkEA3QFj/JeHVGN+9edzlVPgmmDlZKYbVnIPkPOLbMAd3W+9Y91ST7yFKPlD7HO1WO9VB6Y5Z65IqFKYBhesj82jdwJBALIj2u5zSc6TST4Z/csWbJolo7i4jZ5VrBvmYcWB1WPx87b2i7PS7Yc36vOGjPD1ofiQO91ss5XGj7N6jzvK7csCQQCBHnvdKmZtXkfhwRydRMj3SN8co5NbOP5xMGjn24JXSh47RyX84eZmXuNZNOzhjcp+0pW9Rmy6sq6Q+KnfxkPXAkEAj5TJnCpauVqd1XV0GnAzyTnS7QtEUM7BPpDXh80sv3MjBPr46yxPtgHzQk2wQ1brsrqkuZhcHC1M8ql5dcRn7A==",
	"MIICXQIBAAKBgQDf16UPFmzFEGOH39HJ7EzJXQ7wU1Mk6Rt2nzTxSxSH4ZbVpjBSjmL0KTB3Cs+WmuQ64MNlYV7A1FCQYq2fuw6DHpoWJsYQ6ca+iOzmyD899PFOrI4ijD2866d+awyDwuNnTIeH09i6yoCEyJJI7QGkSvj1TIktXCp1IuKqgOUSoQIDAQABAoGABAeHDWJsiT74wMDS8qO91r/MW/CDNTlB25EObevZftDnJUzlw//x9M4QYM5QpWBk8ZRH/1RNwSQ9EVgZnB/n2EDuz9FI+YIWNhJG6gGD0f1dM9Fjr7mqNy9SyP48aUxSee95GhhKdFO6tlkmNfyCRrLHoCoGKAFhKkMXPzbgStUCQQD4qmz/Rh0EkGrCeMlQsgIwTLsz7t1JamnhvxaoJqupeNvw6XzyVWxkpln1YEHZqrzLN8yPV0wgliivFLh1UwVXAkEA5nHJrtNkpvjTVRTKsqWiHeDoVldfsVjhBViR7yhS2iLYUrNvsCh6hc+THdu5fElWQijifCnAzoG53ctd3cP0xwJBAMf1Y8iyvMraxr6zGk+FlTT5vt+4CMHsjFA3tSRqVEfnJBXJ6+uCvbMCAfzK9qjuHvrbV+c8L79UgEqpwtq1c+kCQHB4hMjQ38UmmG5kEXITqQYQKRVK26eBC4JCcidZdOaGLzJd5VsCxpncb58ZCHSCjpkHv1J+Rl4DrqVzhkKgSy0CQQDNW+2Gq8OdlGZN3/qe6yTDh3OXZEJOuWSulHHkBNu+7LPRr9WrRm7ks8pR+S9faXWRyY7h8gjTEWXNDSeiV1JL",
	"MIICXQIBAAKBgQDIAtpyeNdeOXznhuTfPlixk3UHkTVG6OmfOZEFTICo+hvJStPf2v7nzEOzqTQ6v47RhQuGZ+mK+FkI2mdTi4pS0OvvyWi0S3KBUh10mcG+FAe5FxrUTNx+J/BB0hma1t5+nVzWOfDqcEtoUTvDgrD9fmxQvFTiY5dlM1Sq3eoumQIDAQABAoGAQs6lLbhMY8Y7ANDPcPwPvxy8ae8oRwu0QUGGvajcjtSf5GAQnkS1gTJ66K9baUYjy7svatEZspgakTj2a3MAG+rQ6N+2f+oJiiAdmvbBUHlZxUZO+N80jt6k3vs415PKhW9n/NeAawEN3NvUqznst5YCfuRZcgTFT3meSMvdwEMCQQD1V3Sj0u2eACWzSNBZ5GQg0WuBO/5xUs4Q8sATYjBqs97b2Up5uHchDkF/1jwlIVypEnLK4f517CwqEj/LhjyXAkEA0LNCSVA+mVygolYX/gVeFQerZHs8iKjD6mPkLVZk4LOljSn8aR9FnoGYWjkGQB7henQ7yD6v9Ieaps5AUJHkTwJBAMhQaJ6dyH7Zte5lBCBxFsOo2TLCTiQurKsv2F27LLbiN5KfHmy1jSbDIf2DaMYUMDinJGy8CmwzsXeEQOwmpO8CQQDInJfKS1VxLCXJBkMXzecLBg1NkFy27KsuowjSP+rGSEmJ8WMNVZ8hZ2egypHkjwqlIBfbO879mmAhmb8e865nAkAVtmADYHiNdmSCYXRBXVA4yY/aq7vxJKNYojrmjZcdsT90SP4G4uZ7ZXBsEnL5IPoxRjWr9F6LnWNOXNSFV2ZJ",
	"MIICXAIBAAKBgQCZEsuQ5cUJGGsDHuxsaifYfIto3hF8V/rsYX+yZo69jdWLiJkxmMTfTcNjkhCj78BYm5P6RLWsqtKhhE1Qhz09hVROVwt5NPbx2V9qDvHNEihnl0Ebca6ieeoj3qxdUnxc25BppCfGhCB5UE7EU+7yaiW7k910/hCLukcNw0lWuQIDAQABAoGANVC9E25cNwNIvpEGQuqkjzwt6Gw0he006iE5c39SJ0agAtYkmYg+xhJVRDiLUDZA9fvWSjylVIs5CuXEchBwrRN9XgjCdTRwQZHSY1h5GA87m4/x8cQ85NMPrMkY8pZxnIo4F0UdEXpAT+kf6c8dcMNCgvFsIAZNjh3NOKOx/kMCQQDE5ecXaaSqNbiPi1j9MD4yt3vKw6bLLJrhBc5wdAlGKaOYygpAcaRhkWXMJmhiZ9/iwjk0BtZ4Tzi6V075lFfnAkEAxwVOlGU9zUhmBMiTMu+6416+aqOIsIyX8krnDJLe7kUtFJWU7BOuuowi1jEnCUXNX+zvoFoiB+Hgc3QEG+aIXwJAXyqvs0VAbXRhrB+x904mAeVlU++U4obApRplWTz8bokZpXOh2NwUk4PvK+k0cru6HqO5ekgDyUqhJI+mgEMO6QJBAKbXEBTe+nxJIR0JeDzPM4DAQCjthv1aH1cC68ZiqXhdjXkgHIP7zBKev+WHtw3S8mRkIE3wwW6SMLMYowkwrUkCQFBhiFAJf/F6w0h7wl4PpHr5zIg4DjmibU5tx0gFsGGqM/QP6kXSMZ5iDjZ4Y6D/xKsyIk6Kc8Qf12mjXAQbFqc=",
	"MIICXAIBAAKBgQDZwvbZv004SgCp+0PULaOtAzFvm4fFm0nn/+0svZ2E1rr0C4AaleR0U+0pT8Yt38jgHg3fG2Ei3bDJRJqGZqWsJDDITi8mnnNg/scifsD5c8vno4w7eswE8IIMCq+YINig/DkEipMi7rQLSYYrEPz36vLHFlSFvPORAgrozp6L6QIDAQABAoGAAJ8YfhK/JxRsCZvJ2edyC+EuUSJhgJZ2GshUjsOrqzyumIswmyVnQ+qDMvn1Sr8+g6IJHNtKLBkLIinF3PZm3t3bgJ6Af67qOB4aSt6jcpNVd1JWiudCFw8EWxJJwYmwgq4HW268SY2xW0BCGSFFb1K57bBxJ7X5QVxBzZpQff8CQQDpwJ18QtS/vF9oBPVI5irVIB8BNOPH3Ju7aoxl4ApPacSmpZLCi0iU24KHK8OlnPUcrO4dbVhrsjMVy6MK8LoHAkEA7ny7bchXWHNa4DZM3ljyz1zgSb1XdctCVegBIxZQ7BWvccqnf3wKfa4uPuRyHMyFygzl/lJGRN2Z38KXpqPOjwJAQl6eWJnhLk+eBzrhKkGwB7OHGiCaTDUnQp+OHZ7vTn0JiQeaFALYKOvqs9aJRoy6S9oOAez6HhoKxzV6pbCUIQJBALKBjlEH6cj83wJ/4l1zOptXq1HGdVZoA4kFlQRMSdnMCXwk8eaMU9XqsBbHK1q/A01PBj+sGYimTeycXKKQbaUCQAGXXZm3SoJI5zNah+Y8ZD1comzO/7b8KEnZzLLgCJ3i+lu8D/PVwlbTXjQH7ItaUkoYxp8YyrY8hNO6I3b44Is=",
	"MIICXQIBAAKBgQDSZJIAn6s6s7UaajDD0+xKEHG8HRfz+IRZ4Yx0gwIh3lqIsHS4vfFVhp2CUHG6yg4QG44UfVlGiA5ygwD66pqc1s00B8/Jp+34XLIoL2UtmPI8vsmoKMIokWr9Zxj2SLF12IZ5EzUY4KdtQO6AFQjLLAnwWdVRvmJTUBdCxnrwiQIDAQABAoGAKXtVxBS3JIRRJUuhoMK0eGfknNPZqKsroTMUx9YawgW+sOuln9Unc5bukEZ/HfZ/rlJYgZazVvI1cwN8WnyODhnQhoy95LLQrT8YhWrfPeMyfaJUZZ4hHLNQcHJqEyRVPwICEVrw1deXm9tOtIbJxH9m8E74JSd0/+jODgw1On8CQQDlt5syAshJQk4wedssqg/+O4zkjN0Mvs6Fuzbb66ZbZ8Sp+fG1y+v6/szMzHbxtScRIILzBvFwacxvGvKJ+zIfAkEA6nb0oOTmVRByZY9u+G96eVpMGlkqRot2kP+Xux8YlYXu+GGwKttdpVSOSaoyUTcbLnKZ3w4/WGsmyO9CoVYYVwJAL61V1qFhNGNAmysPZEu/mgJ+EYly74xCjNr4Xdig5GO7G5Q2qIa0aZmso+zj2vLAMvvOceZFAhHTTlQHdr/d/QJBAN6phXvepZcW/WzRoFMymx7vz+Id13YTL9BXyqKbz18ASId9Ti4FEZPXDyGKDiruqFOd5d7cyu+PItAj2CUbfBUCQQCvWFaCsR1Z99T8dRo8XvmLnnhHhNM2UBB0j77ux46WeMPfJoLhs+bFSaFXTA4WwiDjjPfqeNf9irDJ+Gmn/HCx",
	"MIICWwIBAAKBgQDK0PIEdS97AskBkt7bT7aieNx0AIl52J5n3yJpIshXxohJEbbWNQ/UDfrNBWbteb3bnpP822mgIM1IXT+QPuimyExGn/3uw75MSlpawIArgwiYeB7lFyoCiiYh2puaoqljnTXSFBBY6rsQdeH0G//HSCzUqSXMLDrbCNSI3ORVyQIDAQABAoGAGFncqlsE57i+jZPRch+GBsfgIDAYUYAytLdTwwUhbM3c0HkcrLy+ORsHQSp5izW8wpZYSlnFutYgD6TdMY0mvaON5ZMywzfWIH17j/8NUAszhWZp+hMWCsLaFnfC3Bdvsip+ijzTLVK6NjX9p666zw6Wwqa2anc1wYAR9h52SWkCQQDs+8ojKirBvFLbRWS74FmvaA9Rfqh+lt4/cDJcSDUJ3Q+ASIlZGiLYecC9Ve+7YmbT79ck00JPlwWU30Xl+/VHAkEA2xdGujJ9zSwE/EGoeutI6A0MyTVQUgl77mqWRKdiDUbzoeGzKMA4submsbgZwCmKZjYNf1evF9K5kOjDKCEkbwJAKqW9YMqr2yWa+57nW/Ap86kUaKQUioN4B46XYYgVE2tW6M0k+oX7k12F1AztEZnJy4Yz/4qNOmmBNaNgntzS7QJAc92Mbv4y36WvAUUr982koev83hAO6UPQwdamn6oxxbnHMM5u9Fcr5RkN2eD15VVStxlQ7A6QL7Ymowcl5nwYiwJAHEivAki+pkmb0rSb9zS4S7p46tL69ctx9F7zDKWz96yfFCiTsvtTBa4pfHshvhhy07qKaslqLDiyRcGbcyTj0w==",
}
