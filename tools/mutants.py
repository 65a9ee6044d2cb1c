"""(properties expected to notice, file below melodist/, original text, changed text)"""
P = 'precipitation.py'
MUTANTS = [
    (['C02', 'C04'], P, "(1.0 - w1) * vdn_in[i]", "(1.0 - w1) * vdn_in[i] * 0.99999"),
    (['C04'], P, "if vdn_in[i] > meanvol:", "if vdn_in[i] >= meanvol:"),
    (['C04'], P, "meanvol = cascade_options.threshold[si]", "meanvol = cascade_options.threshold[-si - 1]"),
    (['C04'], P, "cascade_options = list_casc[si]", "cascade_options = list_casc[l - 1]"),
    (['C04'], P, "if vdn_in[i - 1] > 0 and vdn_in[i + 1] > 0:\n                        vbtype = cascade.BoxTypes.enclosed", "if vdn_in[i - 1] > 0 and vdn_in[i + 1] > 0:\n                        vbtype = cascade.BoxTypes.starting"),
    (['C04'], P, "elif rndp > p[0] and rndp <= p[0] + p[1]:", "elif rndp > p[0] and rndp <= p[1]:"),
    (['C04'], P, "wclassbounds[k + 1] - 1.0 / 14.0", "wclassbounds[k] + 1.0 / 13.0"),
    (['C04', 'C02'], P, "vdn[i - 1] = vdn_025cs[(i * 4) - 1] - vdn_025cs[(i * 4) - 5]", "vdn[i - 1] = vdn_025cs[(i * 4) - 1] - vdn_025cs[(i * 4) - 4]"),
    (['C02', 'C04'], P, "disagg_precip[disagg_precip.index.date == date.date()] = np.nan", "disagg_precip[disagg_precip.index == date] = np.nan"),
    (['C02'], P, "precip_h_rel = (1 / 24) * precip", "precip_h_rel = (1 / 24) * max(precip, 0.01)"),
    (['C05'], P, "if vec_data.precip.values[i - 1] > 0 and vec_data.precip.values[i] == 0:", "if vec_data.precip.values[i - 1] > 0 and vec_data.precip.values[i] <= 0.125:"),
    (['C05'], P, "if vdn.precip.values[j] > meanvol:", "if vdn.precip.values[j] >= meanvol:"),
    (['C05'], P, "elif i == n_out - 1:  # only ending or isolated", "elif i >= n_out - 2:  # only ending or isolated"),
    (['C05'], P, "casc_opt_i * n_vdn  # level related weighting", "casc_opt_i * (n_vdn + 3)"),
    (['C05'], P, "wxxval = r1 / (r1 + r2)", "wxxval = r2 / (r1 + r2)"),
    (['C05'], P, "vdn.precip[vdn.precip > 0.0], cascade_opt.percentile", "vdn.precip[vdn.precip >= 0.0], cascade_opt.percentile"),
    (['C05'], P, "cascade_opt.wxx[np.isnan(cascade_opt.wxx)] = 1.0 / 7.0", "cascade_opt.wxx[np.isnan(cascade_opt.wxx)] = 1.0 / 8.0"),
    (['C05'], P, "thresholds[i] = casc_opt_i.threshold[0]", "thresholds[aggre_level - 1 - i] = casc_opt_i.threshold[0]"),
    (['C05'], 'cascade.py', "self.pxx = self.pxx[:, :] * factor", "self.pxx = self.pxx[:, :] * factor * 1.0001"),
]
MUTANTS += [
    (['C06'], P, "return df.sort_index()", "return df"),
    (['C06'], P, "disagg_precip = disagg_precip.shift(shift)", "disagg_precip = disagg_precip.shift(abs(shift))"),
    (['C06'], P, "disagg_precip = disagg_precip.shift(shift)", "disagg_precip = pd.Series(np.roll(disagg_precip.values, shift), index=disagg_precip.index)"),
    (['C06'], 'station.py', "if len(precip_daily) > 1:", "if len(precip_daily) > 2:"),
    (['C06'], 'station.py', "shift=shift,\n                        zerodiv", "zerodiv"),
    (['C06'], 'station.py', "precip_disagg.loc[data.index] = data", "precip_disagg.loc[data.index] = data.ffill()"),
]

U, T = 'util/util.py', 'temperature.py'
MUTANTS += [
    (['C01'], U, "end=daily_index.max().replace(hour=23)", "end=daily_index[-1].replace(hour=22)"),
    (['C01'], U, "dropdates = list(set(index.date) - set(daily_index.date))", "dropdates = sorted(set(index.date) - set(daily_index.date))[:1]"),
    (['C01'], U, "if not fill_gaps and len(index) > len(daily_index) * 24:", "if not fill_gaps and len(index) > len(daily_index) * 25:"),
    (['C01'], 'station.py', "df = df.reindex(pd.date_range(start=df.index[0], end=df.index[-1], freq='D'))", "pass"),
    (['C03'], U, "ffill(limit=23)", "ffill()"),
    (['C03'], U, "lambda x: x.ffill(limit=23)", "lambda x: x.ffill(limit=23).bfill(limit=2)"),
    (['C03'], T, "data_daily_as_hourly = data_daily.reindex(temp_disagg.index, method='ffill', limit=23)\n\n        df =", "data_daily_as_hourly = data_daily.ffill().reindex(temp_disagg.index, method='ffill', limit=23)\n\n        df ="),
    (['C03', 'C07'], T, "min_val = locdf.min_val_next.copy()", "min_val = locdf.min_val_next.fillna(locdf.min_val_cur).copy()"),
    (['C07'], T, "min_val.index.hour < locdf.max_loc", "min_val.index.hour <= locdf.max_loc"),
    (['C07'], T, "max_val.index.hour < locdf.min_loc", "max_val.index.hour <= locdf.min_loc"),
    (['C07'], T, "locdf.min_val_next = data_daily.tmin.shift(-1, 'D')", "locdf.min_val_next = data_daily.tmin.shift(1, 'D')"),
    (['C07'], T, "locdf.loc[locdf.index[-1], 'min_val_next'] = locdf.min_val_cur.iloc[-1]", "locdf.loc[locdf.index[-1], 'min_val_next'] = locdf.min_val_cur.iloc[0]"),
    (['C07'], T, "default_shift_hours = 2", "default_shift_hours = 3"),
    (['C07'], T, "sun_times.sunnoon[pos].round() + default_shift_hours", "sun_times.sunnoon[pos].round()"),
    (['C07'], T, "pos = locdf.min_loc > locdf.max_loc", "pos = locdf.min_loc >= locdf.max_loc - 1"),
    (['C07'], T, "+ 0.75\n", "+ 0.7\n"),
    (['C07'], T, "locdf.index.hour <= locdf.min_loc", "locdf.index.hour < locdf.min_loc"),
    (['C07'], T, "max_delta[locdf.index.month]", "max_delta[locdf.index.month % 12 + 1]"),
    (['C07'], T, "temp_disagg[:] = df.normval * (df.tmax - df.tmin) + df.tmin", "temp_disagg[:] = df.normval * (df.tmax - df.tmin) * 0.9999 + df.tmin"),
    (['C08'], T, "dtr = locdf.max_val_cur - locdf.min_val_cur", "dtr = locdf.max_val_before - locdf.min_val_cur"),
    (['C08'], T, "mean_course - mean_course.mean()", "mean_course - mean_course.mean().mean()"),
    (['C08'], T, "temp_disagg[:] = data_daily_as_hourly.temp + dtr * mc", "temp_disagg[:] = (data_daily_as_hourly.tmin + data_daily_as_hourly.tmax) / 2 + dtr * mc"),
    (['C09'], T, "daylength_thres = 3", "daylength_thres = 2"),
    (['C09'], T, "sun_times.daylength < daylength_thres", "sun_times.daylength <= daylength_thres"),
    (['C09'], T, "getting_warmers = polars & (avg_before <= avg_cur)", "getting_warmers = polars & (avg_before < avg_cur)"),
    (['C09'], T, "max_loc_polar = 18", "max_loc_polar = 17"),
    (['C09'], T, "limit=23, limit_direction='both'", "limit=23, limit_direction='forward'"),
    (['C09'], T, "temp_polars[day.replace(hour=min_loc)] = locdf.min_val_cur[day]", "pass"),
    (['C09'], T, "day.replace(hour=max_loc) + pd.Timedelta(hours=1)", "day.replace(hour=max_loc)"),
    (['C09'], T, "if len(transition_days) > 0:", "if len(transition_days) > 1:"),
]
H, W = 'humidity.py', 'wind.py'
MUTANTS += [
    (['C10'], H, "tdew_nextday.iloc[-24:] = tdew.iloc[-24:]", "tdew_nextday.iloc[-24:] = tdew.iloc[:24].values"),
    (['C10'], H, "(temp.index.hour + 1) * np.pi / kr", "temp.index.hour * np.pi / kr"),
    (['C10'], H, "temp.index.hour / 24.0 * (tdew_nextday - tdew)", "temp.index.hour / 24.0 * (tdew - tdew_nextday)"),
    (['C10'], H, "temp.index.hour / 24.0", "temp.index.hour / 23.0"),
    (['C10'], H, "a0 = 0\n", "a0 = a0 or 0\n"),
    (['C10'], U, "positives = np.array(temp >= 273.15)\n    vap", "positives = np.array(temp >= 272.15)\n    vap"),
    (['C10'], U, "22.46 * (temp[~positives] - 273.15)", "22.44 * (temp[~positives] - 273.15)"),
    (['C10'], U, "/ (22.46 - np.log", "/ (22.44 - np.log"),
    (['C10'], U, "positives = np.array(temp >= 273.15)\n    dew", "positives = np.array(temp >= 268.15)\n    dew"),
    (['C11'], H, "hum_disagg.clip(0, 100)", "hum_disagg.clip(1, 100)"),
    (['C11'], H, "bias = bias.fillna(0)", "bias = bias.ffill().fillna(0)"),
    (['C11'], H, "hum_disagg -= bias", "hum_disagg = hum_disagg.clip(0, 100) - bias"),
    (['C11'], H, "precip_equal > 0", "precip_equal >= 0.1"),
    (['C11'], H, "bias = bias.fillna(0)", "pass"),
    (['C11'], H, "hum_disagg = hmax + (temp - tmin)", "hum_disagg = hmax + (temp.clip(tmin, tmax) - tmin)"),
    (['C11'], H, "locs = list(zip(hum_disagg.index.month,", "locs = list(zip(np.full(len(hum_disagg), hum_disagg.index.month[0]),"),
    (['C12'], W, "np.log(1.0 - np.random.rand(len(wind_eq)))", "np.log(np.random.rand(len(wind_eq)))"),
    (['C12'], W, "** 0.3", "** 0.32"),
    (['C12'], W, "np.pi * (t - t_shift) / 12", "np.pi * (t + t_shift) / 12"),
    (['C12'], W, "+ b * mean_wind", "+ mean_wind"),
    (['C12'], W, "np.random.rand(len(wind_eq))", "np.repeat(np.random.rand(len(wind_daily)), 24)"),
]
R = 'radiation.py'
MUTANTS += [
    (['C15'], R, "+ 0.000077 * np.sin(2 * beta)", "+ 0.00077 * np.sin(2 * beta)"),
    (['C15'], R, "days_per_year = 365.25", "days_per_year = 365.0"),
    (['C15'], R, "solstice = 173.0", "solstice = 172.0"),
    (['C15'], R, "dates_hour + dates_minute / 60.0", "dates_hour"),
    (['C15'], R, "(0.3 + 0.1 * cos_solar_zenith) * cloud_fraction", "(0.3 + 0.1 * cos_solar_zenith) * cloud_fraction ** 2"),
    (['C15'], R, "direct_radiation = direct_radiation.clip(min=0)", "pass"),
    (['C15'], R, "np.cos(mu - terrain_slope_azimuth)", "np.cos(mu + terrain_slope_azimuth)"),
    (['C15'], R, "np.maximum(np.sin(solar_zenith_angle), np.finfo(float).tiny)", "np.sin(solar_zenith_angle)"),
    (['C16'], U, "pos = omega_nul_arg < -1", "pos = omega_nul_arg < -1.01"),
    (['C16'], U, "sunset[sunset > 24] -= 24", "pass"),
    (['C16'], U, "+ 0.0201 * np.cos(3 * day_angle_b)", "+ 0.0 * np.cos(3 * day_angle_b)"),
    (['C16'], U, "2 * np.pi * (doy - 1) / 365.0", "2 * np.pi * doy / 365.0"),
    (['C16'], U, "(d - d.replace(day=1, month=1)).days + 1", "(d.month - 1) * 30.44 + d.day"),
    (['C16'], U, "sunrise[pos] = sunnoon[pos] - 12", "sunrise[pos] = sunnoon[pos] - 11.9"),
]
MUTANTS += [
    (['C13'], R, "glob_disagg[glob_disagg < 1e-2] = 0.0", "glob_disagg[glob_disagg < 1] = 0.0"),
    (['C13'], R, "& globalrad_equal.notna()] = 0.0", "& globalrad_equal.notna()] = np.nan"),
    (['C13'], R, "(temp.tmin + temp.tmin_nextday) / 2", "temp.tmin"),
    (['C13'], R, "-0.154 * dT_m_avg[temp.index.month]", "-0.154 * dT_m_avg.mean() + 0 * dT_m_avg[temp.index.month]"),
    (['C13'], R, "a = a.loc[months].values\n", "a = a.values[0]\n"),
    (['C13'], R, "glob_day = (a + b * ssd / day_length) * pot_rad_daily", "glob_day = (a + b * (ssd / day_length).clip(upper=0.9)) * pot_rad_daily"),
    (['C13'], R, "temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values", "temp['tmin_nextday'] = temp['tmin'].shift(-1)"),
    (['C13'], 'station.py', "self.data_disagg.index, self.lon, self.lat, self.timezone\n            )\n\n        self.data_disagg.glob", "self.data_disagg.index, self.lon, self.lat, 0\n            )\n\n        self.data_disagg.glob"),
    (['C14'], 'stationstatistics.py', "[[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]", "[[3, 4, 5], [6, 7, 8], [9, 10, 11], [1, 2]]"),
    (['C14'], 'stationstatistics.py', "extract_months(data_daily.ssd, months),", "data_daily.ssd.fillna(0)[myisin(data_daily.index.month, months)],"),
    (['C14'], 'stationstatistics.py', "extract_months(df.obs_rad, months),", "df.obs_rad.rolling(2).mean()[myisin(df.index.month, months)],"),
    (['C14'], 'stationstatistics.py', "if 'tmin' in data_daily and 'tmax' in data_daily:", "elif 'tmin' in data_daily and 'tmax' in data_daily:"),
    (['C14'], R, "p0=[0.25, 0.75])", "p0=[0.25, 0.75], sigma=1 + df.obs)"),
]
MUTANTS += [
    (['C22'], U, "time_diff.total_seconds() != timestep", "time_diff.total_seconds() > timestep"),
    (['C22'], U, "time_diff.total_seconds() != timestep", "time_diff.seconds != timestep % 86400"),
    (['C22'], U, "if i > 0:\n            time_diff", "if i > 1:\n            time_diff"),
    (['C22'], U, "if shift > 23 or shift < 0:", "if shift > 24 or shift < 0:"),
    (['C22'], U, "dataframe.index.hour[i] == first and dataframe.index.minute[i] == 0", "dataframe.index.hour[i] == first"),
    (['C22'], U, "dataframe.index.hour[i] == last and", "dataframe.index.hour[i] >= last and"),
    (['C22'], U, "for i in range(n - 1, -1, -1):", "for i in range(n - 1, 0, -1):"),
    (['C22'], U, "df.precip.resample('D').sum()", "df.precip.resample('D').sum(min_count=1)"),
    (['C22'], U, "df.hum.resample('D').mean()", "df.hum.resample('D').median()"),
    (['C22'], U, "df.wind.resample('D').mean()", "df.wind.fillna(0).resample('D').mean()"),
    (['C22'], U, "/ 60  # minutes", "// 60  # minutes"),
    (['C22'], U, "df_daily['hum_min'] = df.hum.groupby(df.hum.index.date).min()", "df_daily['hum_min'] = df.hum.dropna().groupby(df.hum.dropna().index.date).nsmallest(2).groupby(level=0).mean()"),
    (['C23'], U, "data = pd.concat(data).sort_index()", "data = pd.concat(data).sort_index().dropna().clip(upper=290)"),
    (['C23'], U, "data_daily[column].values)", "data_daily[column].ffill().values)"),
    (['C23'], 'station.py', "limit=24, limit_direction='both', **kwargs", "limit=23, limit_direction='both', **kwargs"),
    (['C23'], 'station.py', "method=method, limit=limit, limit_direction=limit_direction)", "method=method, limit=limit, limit_direction='both')"),
    (['C23'], 'station.py', "return data.interpolate(**kwargs)", "return data.interpolate(**kwargs).round(1)"),
]
D = 'data_io.py'
MUTANTS += [
    (['C20'], D, "float_format=lambda x: '{:.2f}'.format(x)", "float_format=lambda x: '{:.1f}'.format(x)"),
    (['C20'], D, "float_format=lambda x: '{:.2f}'.format(x)", "float_format=lambda x: '{:.5g}'.format(x)"),
    (['C20'], D, "data.sum(min_count=1).dropna()", "data.sum(min_count=2).dropna()"),
    (['C20'], D, "data = data * multiplier", "data = data * multiplier[0]"),
    (['C20'], D, "'tmin': 'TMIN',  # no spec", "'tmin': 'TMN',"),
    (['C20'], D, "t = '%Y-%m-%dT%H:%M'", "t = '%Y-%m-%dT%H:00'"),
    (['C20'], D, "t = '%Y-%m-%dT00:00'", "t = '%Y-%m-%dT%H:%M'"),
    (['C20'], D, "data.fillna(nodata_value)", "data.ffill().fillna(nodata_value)"),
    (['C20'], D, "line.split('=', 1)", "line.split('=')"),
    (['C20'], D, "if check_nan:", "if True:"),
    (['C20'], D, "len(metadata['fields'].split()) * \"1 \"", "len(metadata['fields'].split()) * \"1.0001 \""),
    (['C20'], D, "data['timestamp'] = [d.strftime(t)", "data.index = data.index.round('h')\n        data['timestamp'] = [d.strftime(t)"),
    (['C20'], D, "'HUM'", "'HUM'"),
]
MUTANTS.pop()
MUTANTS += [
    (['C21'], D, "hourly_data_obs_raw.index + pd.Timedelta(hours=1)", "hourly_data_obs_raw.index"),
    (['C21'], D, "pd.to_timedelta(hourly_data_obs_raw['HH'] - 1, unit='h')", "pd.to_timedelta((hourly_data_obs_raw['HH'] - 1) % 23, unit='h')"),
    (['C21'], D, "hourly_data_obs_raw['Q'] * 10000 / 3600.0", "hourly_data_obs_raw['Q'] * 2.78"),
    (['C21'], D, "for column in ('precip', 'ssd'):", "for column in ('precip', 'ssd', 'hum'):\n        hourly_data_obs[column] = hourly_data_obs[column].fillna(-1)\n    for column in ('precip', 'ssd'):"),
    (['C21'], D, "negative_values = hourly_data_obs[column] < 0.0", "negative_values = hourly_data_obs[column] < -1.0"),
    (['C21'], D, "return ts.sort_index()", "return ts"),
    (['C21'], D, "ts = pd.concat([ts, current])", "ts = ts.combine_first(current[current.index > ts.index[-1]])"),
    (['C21'], D, "data.join(data_h, how='outer')", "data.join(data_h, how='left')"),
    (['C21'], D, "skip_last = [num_lines - 1]", "skip_last = [num_lines]"),
    (['C21'], D, "data = data.replace(-999, float('nan'))", "pass"),
    (['C21'], D, "data[\"tmax\"] = data[\"tmax\"] + 273.15", "data[\"tmax\"] = data[\"tmax\"] + 273.0"),
    (['C21'], D, "hour = date_time[8:10]", "hour = '%02d' % max(int(date_time[8:10]) - 1, 0)"),
    (['C21'], D, "'SONNENSCHEINDAUER': 'sun_h',", "'SONNENSCHEINDAUER': 'sun_h', 'DAMPFDRUCK': 'vp',"),
    (['C21'], D, "meta.iloc[meta.last_valid_index(), 3]", "meta.iloc[meta.first_valid_index(), 3]"),
    (['C21'], D, "skiprows=31,", "skiprows=32,"),
]
SS = 'stationstatistics.py'
MUTANTS += [
    (['C24'], U, "df = data_hourly.groupby([data_hourly.index.month, data_hourly.index.hour]).mean()", "df = data_hourly.groupby([data_hourly.index.month, data_hourly.index.hour]).median()"),
    (['C24'], U, "df = data_hourly.groupby([data_hourly.index.month, data_hourly.index.hour]).mean()", "df = data_hourly.ffill().groupby([data_hourly.index.month, data_hourly.index.hour]).mean()"),
    (['C24'], U, "df = (df - df.min()) / (df.max() - df.min())", "df = (df - df.min().min()) / (df.max() - df.min())"),
    (['C24'], T, "temp_valid = temp_hourly.dropna()", "temp_valid = temp_hourly.fillna(0)"),
    (['C24'], T, "mean_monthly_delta = max_delta.groupby(max_delta.index.month).mean()", "mean_monthly_delta = max_delta.groupby(max_delta.index.month).median()"),
    (['C24'], T, "idxmax.apply(lambda d: d.hour)", "idxmax.apply(lambda d: d.hour + 1)"),
    (['C24'], T, "temp_valid.groupby(temp_valid.index.date).idxmax()", "temp_valid.groupby(temp_valid.index.date).idxmin()"),
    (['C24'], H, "hourly_data_obs.precip.resample('D').sum() > 0", "hourly_data_obs.precip.resample('D').sum() > 1"),
    (['C24'], H, "hourly_data_obs.precip.resample('D').sum() > 0", "hourly_data_obs.precip.resample('D').mean() > 0.01"),
    (['C24'], H, "temphum.temp.groupby(temphum.index.normalize()).min()", "temphum.dropna().temp.groupby(temphum.dropna().index.normalize()).min()"),
    (['C24'], H, "util.linregress(df.tmin, df.tdew", "util.linregress(df.tdew, df.tmin"),
    (['C24'], H, ".resample('D').mean()\n    tmin", ".resample('D').median()\n    tmin"),
    (['C24'], W, "dropna(how='any')\n    x = np", "fillna(0)\n    x = np"),
    (['C24'], W, "wind_daily = wind.groupby(wind.index.date).mean()", "wind_daily = wind.groupby(wind.index.date).median()"),
    (['C24'], W, "df.index.hour])", "df.index.hour + 0.5])"),
    (['C24'], SS, "self.data.temp, self._lon, self._lat, self._timezone", "self.data.temp, self._lat, self._lon, self._timezone"),
    (['C24'], SS, "a1, a0 = melodist.calculate_dewpoint_regression(self.data, return_stats=False)", "a1, a0 = melodist.calculate_dewpoint_regression(self.data.dropna(), return_stats=False)"),
    (['C24'], SS, "calculate_mean_daily_course_by_month(self.data.glob)", "calculate_mean_daily_course_by_month(self.data.glob[self.data.glob > 0])"),
]
ST = 'station.py'
MUTANTS += [
    (['C17'], ST, "self._lon = lon\n        self.statistics._lon = lon\n        self._update_sun_times()", "self._lon = lon\n        self.statistics._lon = lon"),
    (['C17'], ST, "self._lat = lat\n        self.statistics._lat = lat\n        self._update_sun_times()", "self._lat = lat\n        self.statistics._lat = lat"),
    (['C17'], ST, "self.statistics._lat = lat\n", "pass\n"),
    (['C17'], ST, "self.statistics._timezone = timezone\n", "pass\n"),
    (['C17'], ST, "s._lat = self.lat\n        s._timezone = self.timezone", "s._lat = self.lat if s._lat is None else s._lat\n        s._timezone = self.timezone"),
    (['C17'], ST, "s._timezone = self.timezone\n", "s._timezone = s._timezone or self.timezone\n"),
    (['C17'], ST, "self._update_sun_times()\n\n    @property\n    def lon", "if self.sun_times is None:\n            self._update_sun_times()\n\n    @property\n    def lon"),
    (['C17'], ST, "self._data_disagg = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)", "if self._data_disagg is None:\n            self._data_disagg = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)\n        else:\n            self._data_disagg = self._data_disagg.reindex(index)"),
    (['C17'], ST, "self.sun_times = None\n\n        if self.data_daily", "if self.data_daily"),
    (['C17'], ST, "if pot_rad is None and method != 'mean_course':\n            pot_rad = melodist.potential_radiation(\n                self.data_disagg.index, self.lon, self.lat, self.timezone\n            )", "if pot_rad is None and method != 'mean_course':\n            if getattr(self, '_pot', None) is None or not self._pot.index.equals(self.data_disagg.index):\n                self._pot = melodist.potential_radiation(\n                self.data_disagg.index, self.lon, self.lat, self.timezone\n            )\n            pot_rad = self._pot"),
    (['C17'], ST, "self.data_disagg.wind = melodist.disaggregate_wind(", "self.data_disagg.loc[:, 'hum'] = self.data_disagg.hum.interpolate(limit=1) * (1 + 1e-3)\n        self.data_disagg.wind = melodist.disaggregate_wind("),
    (['C17', 'C18'], SS, "self.wind.update(a=a, b=b, t_shift=t_shift)", "self.wind.update(a=a, b=b, t_shift=self.wind.t_shift or t_shift)"),
    (['C17'], SS, "max_delta=max_delta, mean_course=mean_course)\n\n    def calc_rad", "max_delta=max_delta, mean_course=mean_course if self.temp.mean_course is None else self.temp.mean_course)\n\n    def calc_rad"),
    (['C17'], SS, "self.glob.update(mean_course=mean_course, angstroem=angstroem", "self.glob.update(mean_course=mean_course if data_daily is None else self.glob.mean_course, angstroem=angstroem"),
    (['C18'], SS, "self._data = df.copy()", "self._data = df"),
    (['C18'], ST, "self._data_daily = df.copy()", "self._data_daily = df"),
    (['C18'], 'util/bunch.py', "copy.deepcopy(", "copy.copy("),
    (['C18'], P, "precip_daily = precip_daily.copy()", "pass"),
    (['C18'], SS, "angstroem = self.glob.angstroem.copy()", "angstroem = self.glob.angstroem"),
    (['C18'], SS, "bristcamp = self.glob.bristcamp.copy()", "bristcamp = self.glob.bristcamp"),
    (['C18'], ST, "        assert isinstance(s, melodist.StationStatistics)\n        s._lon", "        self._statistics = s\n        assert isinstance(s, melodist.StationStatistics)\n        s._lon"),
    (['C18'], ST, "        for var in 'tmin', 'tmax', 'tmean':", "        self._data_disagg = None if self._data_disagg is None else self._data_disagg * np.nan\n        for var in 'tmin', 'tmax', 'tmean':"),
    (['C18'], ST, "        if method == 'equal':\n            precip_disagg", "        precip_disagg = self.data_disagg.precip * 0\n        if method == 'equal':\n            precip_disagg"),
    (['C18'], SS, "        assert isinstance(df, pd.DataFrame)\n        assert isinstance(df.index, pd.DatetimeIndex)\n        assert df.index.resolution == 'hour'\n\n        self._data = df.copy()", "        self._data = df\n        assert isinstance(df, pd.DataFrame)\n        assert isinstance(df.index, pd.DatetimeIndex)\n        assert df.index.resolution == 'hour'\n\n        self._data = df.copy()"),
    (['C18'], P, "vdn['precip'] = vdn['precip'].fillna(0)", "ObsData['precip'] = ObsData['precip'].fillna(0)\n        vdn['precip'] = vdn['precip'].fillna(0)"),
    (['C18'], H, "    if method == 'equal':", "    data_daily.loc[data_daily.index[data_daily.hum > 100], 'hum'] = 100.0\n    data_daily['tdew'] = data_daily.tmin\n    if method == 'equal':"),
    (['C19'], SS, ".sort_index()\n            )\n            stats.temp.mean_course = mc.sort_index(axis=1)", ".sort_index()\n            )\n            stats.temp.mean_course = mc.sort_index(axis=1).fillna(0)"),
    (['C19'], SS, "json.loads(obj.to_json(date_format='iso'))", "json.loads(obj.to_json(date_format='iso', double_precision=6))"),
    (['C19'], 'cascade.py', "casc.percentile = d['percentile']", "pass"),
    (['C19'], 'cascade.py', "casc.threshold = np.array(d['threshold'])", "pass"),
    (['C19'], 'cascade.py', "casc.wxx = np.array(d['wxx'])", "casc.wxx = np.array(d['wxx']).round(12)"),
    (['C19'], SS, "for var in ('angstroem', 'bristcamp', 'mean_course'):", "for var in ('angstroem', 'mean_course'):"),
    (['C19'], SS, "stats.hum.update(d['hum'])", "stats.hum.update({k: v for k, v in d['hum'].items() if k != 'kr'})"),
    (['C19'], SS, "mhpm = mhpm.set_index(['level_0', 'level_1', 'level_2'])", "mhpm = mhpm.set_index(['level_0', 'level_2', 'level_1'])"),
    (['C19'], SS, "stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)", "stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1).reindex(columns=range(1, 13)).ffill(axis=1)"),
    (['C19'], SS, "            ).sort_index()\n\n        if stats.temp.mean_course", "            ).sort_index().reset_index(drop=True)\n\n        if stats.temp.mean_course"),
]
